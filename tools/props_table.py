TRUST = ('Trusts the clang front end, the IR exporter, the abstract interpreter and its models of the standard library; paths that meet '
         'an unmodelled operation are counted as undecided and never reported.')
AI = 'abstract interpretation of the LLVM IR (predicate cubes per path) compared with a decision table'

P('C01', 'Calling a reflected callable is gated by arity and argument conversion',
  'Calling through a reflected function runs the underlying callable exactly once, and only when the number of arguments equals the number of '
  'declared parameters and every argument is convertible to its parameter; otherwise an error is raised and the callable is not run. '
  'The callable receives the arguments in the order given, each designating the object that was passed.',
  ['inputs', 'programs'], 'every combination of convertible/not convertible per argument and result, for free functions, member functions, const member functions and functors, with fewer, equal and more arguments than parameters',
  'Tests call a few signatures with a few matching arguments; the gate must hold for every combination of refusals, and a wrongly admitted call reinterprets memory.',
  ['src/function.tcc', 'src/function.cpp', 'src/value_function.h'],
  [('Function::call', 'src/function.tcc'), ('ValueFunctionImpl::operator()', 'src/value_function.h')],
  ['the invocation of the wrapped callable', 'the error handler'],
  AI, note='Every path through the call machinery is covered with conversion results left open (three-valued unknowns); by-value parameters are followed up to the copy made by the type itself. ' + TRUST)

P('C02', 'Argument conversion follows the documented reference and const rules',
  'Whether an argument converts to a parameter, and whether exactly or partially, depends only on the two types, reference kinds and constness: identical descriptions and descriptions where exactly one side is the generic value type match exactly; a user conversion gives a partial match unless the parameter is an lvalue reference, which it never matches. '
  'Otherwise the argument type must be the parameter type or derived from it; a reference parameter never drops constness, a mutable lvalue reference accepts only mutable lvalues, an rvalue reference accepts only rvalues, a const lvalue reference and a by-value parameter accept any reference kind. '
  'Such a match is exact when reference kind and constness agree or an rvalue is passed by value, and partial otherwise.',
  ['inputs'], 'all reference kinds and constness of both sides, all relations between the two types',
  'The table has over a thousand distinct cases (reference kind, constness, identity, derivation, conversion, generic value on each side); tests sample some of them for a handful of types.',
  ['src/argument.cpp', 'src/ref_type.h'],
  [('Argument::isConvertibleTo', 'src/argument.cpp'), ('testConstConversion', 'src/ref_type.h'), ('combine', 'src/argument.cpp')],
  ['the match returned for two argument descriptions'],
  AI, level='proof', note='All valuations of the type relations, reference kinds and constness are enumerated; type predicates are uninterpreted. ' + TRUST)

P('C03', 'Function matching combines result and argument matching consistently',
  'A requested signature matches a function only if the argument counts are equal, every given argument converts to the corresponding parameter and the result of the function can serve as the wanted result; the overall match is the weakest of the argument matches. '
  'Any result satisfies a request for no result, no result satisfies only a request for a non-lvalue generic value, and a temporary result never satisfies a request for a const lvalue reference. '
  'Asking with a signature type, another function, explicit argument descriptions or actual arguments gives the same answer.',
  ['inputs', 'programs'], 'all outcomes of each pairwise conversion, 0 to 3 parameters against 0 to 4 arguments, ten result kinds against every wanted result',
  'Tests probe single conversions one at a time; the combination over positions, counts, result kinds and the four ways of asking is not sampled.',
  ['src/function.cpp', 'src/function.tcc'],
  [('Function::test', 'src/function.cpp'), ('Function::testParams', 'src/function.tcc'), ('reflectArguments', 'src/function.tcc')],
  ['the match reported for a requested signature'],
  AI, note='Conversion of single arguments is a three-valued unknown per pair (decided separately by C02). ' + TRUST)

P('C04', 'Overload selection picks the exact match and rejects ambiguity',
  'Among registered overloads a call runs the first exact match if there is one, else the only partial match; no match and several partial matches without an exact one are errors and run nothing. '
  'Membership tests succeed exactly when some overload matches, lookup returns the first matching overload or raises an error, and adding a function that an existing overload matches exactly is rejected while any other is appended.',
  ['inputs', 'histories'], 'every assignment of none/partial/exact to up to four overloads, in every order',
  'The number of match assignments grows exponentially with the overloads; tests use two or three fixed overload sets.',
  ['src/overloads.tcc', 'src/overloads.cpp'],
  [('Overloads::call', 'src/overloads.tcc'), ('Overloads::add/test/get', 'src/overloads.cpp')],
  ['which overload runs', 'the error handler'],
  AI, note='Sets of 0 to 4 overloads, all match assignments; the match of each overload is an unknown. ' + TRUST)

P('C06', 'Typed access to a value is refused unless the type is the same or a base',
  'Reading a value as a given type yields the address of the held object when the type of the value is that type or derived from it, and raises an error in every other case. '
  'Obtaining a mutable reference additionally requires a mutable lvalue.',
  ['inputs'], 'all relations between the type of the value and the requested type, all constness and reference kinds',
  'A missed refusal silently reinterprets memory; tests only exercise the refusals for a few unrelated types.',
  ['src/value.tcc', 'src/cast.h', 'src/cast.cpp'],
  [('Value::as/get', 'src/value.tcc'), ('cast<T&>', 'src/cast.h')],
  ['the returned reference', 'the error handler'],
  AI, note='Type derivation is uninterpreted. ' + TRUST)

P('C07', 'Constness and identity are preserved by fields, views and casts',
  'Accessing a field of a value gives an lvalue of the field type at the address of the object plus the field offset, const whenever the value or the field is const. '
  'A const view is const, an rvalue view keeps constness, and both designate the same object with shared ownership. '
  'Passing a value where a mutable lvalue reference is declared is refused for const values and for anything but an lvalue; where a reference is accepted the very same object is passed on, and by-value parameters get a copy or a converted value only when the target type can be copied.',
  ['inputs'], 'all constness, reference kinds, type relations, copyability and conversions',
  'Const leaks appear only for particular combinations of const value, const field and reference kind which tests sample sparsely.',
  ['src/value.tcc', 'src/value.cpp', 'src/cast.cpp'],
  [('Value::field', 'src/value.tcc'), ('Value::toConst/rvalue', 'src/value.cpp'), ('cast', 'src/cast.cpp')],
  ['the resulting value and its argument description', 'the error handler'],
  AI, note='Copyability, movability, derivation and conversion are uninterpreted. ' + TRUST)

P('C08', 'Values own temporaries, never own referenced objects, and share on copy',
  'A value made from an lvalue refers to that object and never owns it; a value made from a temporary owns exactly one heap copy, moved from it when possible and copied otherwise, which is destroyed as its own type, and a type that can be neither moved nor copied is refused. '
  'Copying a value shares its ownership, moving hands it over, self-assignment changes nothing. '
  'Duplicating and moving out are refused for types that cannot be copied or moved, and moving out leaves the source void.',
  ['inputs', 'histories'], 'lvalues, const lvalues, rvalues and const rvalues of types with every combination of copy and move construction; every state of the source value',
  'Leaks, double destruction and dangling storage do not fail a unit test without instrumentation, and depend on how the value was made.',
  ['src/value.tcc', 'src/value.cpp'],
  [('Value constructors and assignment', 'src/value.tcc, src/value.cpp'), ('store', 'src/value.tcc'), ('ValueDestructor', 'src/value.tcc')],
  ['allocation, construction and destruction of the stored object', 'the ownership record of the value'],
  'abstract interpretation with an ownership (typestate) domain over allocations and shared control blocks', note='Ownership is read off the abstract shared-ownership member of the value. ' + TRUST)

P('C05', 'A name designates one thing: duplicates are refused and traits are kept as given',
  'Adding a field to a type raises an error when that type itself already has a field or a function of that name, and adding a function when it has a field of that name; names of parent types may be reused. '
  'Adding a trait already present on the same type, field, overload set or scope raises an error. '
  'A trait is found exactly under the names it was added with, getting a missing one raises an error, and its value is the one given: void when none was given, a mutable reference to the very object when an lvalue was given.',
  ['inputs', 'histories'], 'every pair of additions (field or function, to any of three levels of a parent chain; traits on the four kinds of carriers) with names left open, followed by any lookup',
  'Whether a collision is refused depends on the kind, the order and the level of both additions; tests try few pairs, and a silently dropped or replaced member is not noticed.',
  ['src/type.cpp', 'src/traits.cpp', 'src/traits.tcc'],
  [('Type::addField/addFunction', 'src/type.cpp'), ('Traits::addTrait/getValue', 'src/traits.cpp, src/traits.tcc')],
  ['the error handler', 'results of hasField, hasFunction, field, function, is, getValue, traits'],
  AI, note='Names are unknown strings related only by equality; all equality patterns are enumerated. ' + TRUST)

P('C14', 'Member lookup walks the parent chain, nearest first',
  'A type has a field or function exactly when it or one of its ancestors was given one of that name; lookup on a constant type returns the one of the nearest type in the parent chain, or raises an error when there is none. '
  'Lookup on a mutable type only considers the type itself. '
  'Listing fields or functions yields every name of the type and its ancestors exactly once, in ascending order.',
  ['inputs', 'histories'], 'every pair of additions of fields and functions to three levels of a parent chain, with added and requested names left open',
  'Shadowing, lookup beyond the immediate parent and the difference between mutable and constant lookup only show for particular combinations of levels and equal names.',
  ['src/type.cpp'],
  [('Type::field/function/hasField/hasFunction/fields/functions', 'src/type.cpp')],
  ['results of the lookups and listings'],
  AI, note='Names are unknown strings related only by equality and order; the sorting algorithm itself is interpreted. ' + TRUST)

P('C19', 'Derivation, pointers, conversions and constructors are answered consistently',
  'A type is a child of itself and of every ancestor and of nothing else; isParentOf is the converse. A pointer type is a child of another pointer type only if both have the same kind of pointer and the pointee is a child of the other pointee, and never of a type that is not a pointer. '
  'A type is a pointer exactly when made one; asking others for pointer kind or pointee raises an error, as does making a type a pointer twice. '
  'A converter is the function of the type or its ancestors named after the conversion operator to the target; asking raises an error when there is none or several. '
  'A type can be copied (moved) exactly when it has a constructor function that accepts a value (an rvalue) of the type itself.',
  ['inputs', 'histories'], 'all positions in a chain of three types plus an unrelated one, pointers to them of equal and different kinds, pointers to pointers, converters at every level, nine constructor sets',
  'Tests derive a few types one level deep; wrong answers for deeper chains or mixed pointer kinds reinterpret memory.',
  ['src/type.cpp'],
  [('Type::isChildOf/isParentOf', 'src/type.cpp'), ('Type::setPointer/pointee', 'src/type.cpp'), ('Type::converter', 'src/type.cpp'), ('Type::isCopiable/isMovable', 'src/type.cpp')],
  ['results of the predicates', 'the error handler'],
  AI, note='Pointer kinds and function names are unknown strings. ' + TRUST)

P('C13', 'A type is loaded once, by its first loader, under its real name',
  'Looking up a type first replaces the name by what it is an alias of, then returns the type of that name, loading it on first use: the loader registered first for that name is called exactly once, with a fresh type of that name, and every later lookup, including those made by the loader itself, returns that same type without loading again. '
  'Loaders registered later for the same name are ignored. Looking up a name without type or loader, an alias given twice, and empty names or loaders raise an error. '
  'Every registration announces the name to the global scope.',
  ['inputs', 'histories'], 'two registrations, an alias given never, first, last or between, and up to two lookups with all names left open; loaders that look up themselves and each other; registrations after loading',
  'Re-entrant loading, late registration and aliases of loaded types need particular histories; a second load yields two distinct types for one name, which breaks every comparison of types.',
  ['src/registry.cpp'],
  [('Registry::get/add/alias/load', 'src/registry.cpp')],
  ['calls of the loaders', 'results of Registry::get', 'the error handler'],
  AI, note='Names are unknown strings related only by equality; all equality patterns are enumerated. ' + TRUST)

P('C12', 'Tables shared by threads are only used under their lock',
  'The registry (types, loaders, aliases), the caches of JSON parsers and printers and all caches kept in static storage can be used from several threads: outside of their initialisation by the language, whenever one of them is written, every other access is made under a lock held by both or both are atomic. '
  'A type that other threads can already find is only completed under the lock it was registered under, a template marks itself as registered only once it is, no function returns holding a lock, no lock is taken again by the thread holding it unless it is recursive, and locks are taken in one order.',
  ['schedules', 'inputs'], 'every function that can reach static storage, all of its paths, any number of threads calling any of them',
  'Data races and deadlocks need particular interleavings of several threads; the tests run one.',
  ['src/registry.cpp', 'src/utils/json/parser.cpp', 'src/utils/json/printer.cpp', 'src/argument.cpp', 'src/dsl/template.h'],
  [('Registry::get/add/alias', 'src/registry.cpp'), ('json::parse, json::print', 'src/utils/json'), ('Argument::isConvertibleTo', 'src/argument.cpp'), ('reflectTemplateLoader', 'src/dsl/template.h')],
  ['accesses to static storage and the locks held'],
  'lockset and lock-order analysis over an abstract interpretation of every function reaching static storage', note='The scope tables are not covered (they are handed out as plain pointers); code of loaders run under the registry lock is not followed. ' + TRUST)

P('C15', 'Asking a scope about a name creates nothing',
  'hasScope, hasFunction and hasType answer whether a name was added, for names of any depth, and leave the scope as it was: no scope, type or function appears because it was asked for. '
  'Asking hasType for a name nested in a type raises an error.',
  ['inputs', 'histories'], 'every pair of additions of functions, types and scopes, then a question with a name of up to three segments, then a listing or a second question; all equality patterns of the segments',
  'Scopes are created on demand by other operations; a query that goes through one of them leaves traces that only later listings show, and only for partly known paths.',
  ['src/scope.cpp'],
  [('Scope::hasScope/hasFunction/hasType', 'src/scope.cpp')],
  ['results of the queries', 'listings after the queries', 'the error handler'],
  AI, note='Segments are unknown non-empty strings without separators, related only by equality. ' + TRUST)

P('C16', 'Scoped names designate what was added under that path',
  'A function, type or scope added under a path is found under exactly that path and from there only: function returns the overloads added under that path, type asks the registry once for the full path including the enclosing scopes, scope returns the scope whose id is that path and only its mutable form creates missing ones. '
  'Looking up what was not added, through a type, or adding a type below a type or function of that name, raises an error. Listings yield every name once, with the path relative to the scope when nested ones are included.',
  ['inputs', 'histories'], 'every pair of additions of functions, types and scopes with one to three segments, then lookups, listings and a third addition, all equality patterns of the segments',
  'Nested, partly shared and conflicting paths multiply; tests add a handful of distinct names.',
  ['src/scope.cpp'],
  [('Scope::scope/function/type', 'src/scope.cpp'), ('Scope::addType/addFunction', 'src/scope.cpp'), ('Scope::types/functions/scopes/id', 'src/scope.cpp')],
  ['results of lookups and listings', 'requests to the registry', 'the error handler'],
  AI, note='Segments are unknown non-empty strings without separators, related only by equality. ' + TRUST)

P('C17', 'Scoped names split at separators outside of template brackets',
  'Scope::head splits a name at the first and Scope::tail at the last separator outside of template brackets, returning the whole name and an empty rest when there is none; a single colon outside of brackets and brackets left open raise an error. '
  'Scope::join puts a separator between two names unless the first is empty.',
  ['inputs'], 'all strings of up to six characters (seven in the thorough tier); all strings for join',
  'Names of templates contain separators inside of brackets, at the start or the end; tests try a few well formed names.',
  ['src/scope.cpp'],
  [('Scope::head/tail/join', 'src/scope.cpp')],
  ['the two parts', 'the error handler'],
  AI, note='Characters are unknown; only the comparisons the code makes distinguish them. Names with closing brackets before opening ones are not judged. ' + TRUST)

P('C20', 'JSON text is split into the tokens and values it denotes',
  'A reader over well-formed text delivers exactly the tokens of that text and then the end: punctuation, literals, strings with all escapes decoded (\\u sequences and surrogate pairs into UTF-8 when unescaping is on, kept literally when it is off), integers that fit 64 bits as integers and all other numbers as floats. '
  'White space and, when allowed, comments separate tokens and are skipped; the line reported is one plus the line feeds passed. Peeking does not change what is taken.',
  ['inputs'], 'all texts of up to 3 (thorough: 4) arbitrary characters, and longer ones with up to 6 open characters after prefixes that reach strings, escapes, literals, numbers at the 64-bit limits, comments, UTF-8 and surrogates, under all reader options',
  'Tests feed a dozen texts; the lexer is a character-level state machine whose mistakes show for single code points, digits or positions of the end.',
  ['src/utils/json/token.cpp', 'src/utils/json/reader.h', 'src/utils/json/reader.cpp'],
  [('details::nextToken', 'src/utils/json/token.cpp'), ('Reader::peekToken/nextToken', 'src/utils/json/reader.cpp')],
  ['tokens, their values and the line of the reader'],
  AI.replace('a decision table', 'a reference lexer'), note='Characters are symbolic: each outcome stands for a set of texts and is compared with the reference at the boundary values of that set. Not required: numbers with leading zeros, control characters in strings, code points above 0x10FFFF, \\v and \\f between tokens. ' + TRUST)

P('C21', 'Malformed JSON text is an error of the reader, never a crash',
  'Reading malformed or truncated text (bad characters, literals, numbers, escapes, unpaired surrogates, invalid or overlong UTF-8 when validating, unterminated strings, comments when not allowed) sets the error of the reader, naming the line the offending token starts on. '
  'The first error stays; after it every token is the end of the stream. No text makes the reader raise an error of the library, throw, or run into undefined behaviour of character classification.',
  ['inputs'], 'all texts of up to 3 (thorough: 4) arbitrary characters, and longer ones with up to 6 open characters after prefixes that reach strings, escapes, literals, numbers, comments, UTF-8 and surrogates, each of them also cut short, under all reader options',
  'Malformed inputs are unboundedly many and untrusted; a missed one yields wrong data or ends the process.',
  ['src/utils/json/token.cpp', 'src/utils/json/reader.h', 'src/utils/json/reader.tcc', 'src/utils/json/utils.h'],
  [('details::nextToken', 'src/utils/json/token.cpp'), ('Reader::error', 'src/utils/json/reader.tcc')],
  ['the error of the reader and the tokens after it'],
  AI.replace('a decision table', 'a reference lexer'), note='Same analysis as C20, for the texts the reference rejects. ' + TRUST)

P('C22', 'JSON arrays and objects are walked exactly when well-formed',
  'parseArray and parseObject visit every item or member of a well-formed container exactly once, in order, with its index or key, and consume exactly the container; skip consumes exactly one value. A null in place of a container has no items. '
  'Anything else (missing or extra separators, missing keys or values, wrong brackets, truncation) is an error of the reader, and no further item is visited after it; nothing ends the process.',
  ['inputs'], 'all texts of up to 4 (thorough: 5) characters over the structural characters, and longer ones with up to 4 open characters after prefixes, for walking, skipping and their nesting',
  'Acceptance is a language property: every wrong separator or bracket at every nesting must be refused and every well-formed text accepted.',
  ['src/utils/json/parser.tcc', 'src/utils/json/reader.cpp'],
  [('parseArray/parseObject/skip', 'src/utils/json/parser.tcc')],
  ['calls of the callbacks, the error of the reader and the token after the value'],
  AI.replace('a decision table', 'a reference parser'), note='Skipping at the end of the text counts as a missing value. ' + TRUST)

P('C23', 'Typed JSON reads take the matching token or report an error',
  'parseNull, parseBool, parseInt, parseFloat and parseString consume one token and return its value when it has the wanted type (floats also from integers); every other token is an error of the reader and never an error of the library. '
  'assertToken and expectToken accept exactly the token asked for.',
  ['inputs'], 'all texts of up to 2 (thorough: 3) arbitrary characters and longer ones by prefix, for every typed read; every token type against every expected type',
  'Wrong-typed data is ordinary input; the conversion of a token of another type aborts the process.',
  ['src/utils/json/parser.tcc', 'src/utils/json/reader.cpp', 'src/utils/json/token.cpp'],
  [('parseBool/parseInt/parseFloat/parseString/parseNull', 'src/utils/json/parser.tcc'), ('Reader::expectToken', 'src/utils/json/reader.cpp')],
  ['the value returned, the error of the reader and the next token'],
  AI.replace('a decision table', 'a reference parser'), note=TRUST)

P('C24', 'Printed JSON scalars are the JSON text that denotes the value',
  'formatString and printString write one JSON string literal which decodes to exactly the given text: quotes, backslashes and the named control characters are escaped, non-ASCII characters are written as \\u escapes (surrogate pairs past U+FFFF) with EscapeUnicode and as they are without it. '
  'Text which is not UTF-8 is an error of the writer with EscapeUnicode or ValidateUnicode. formatInt writes every 64-bit integer in decimal, booleans and null are written by name; valid values never raise an error, and the first error of a writer is kept.',
  ['inputs'], 'all texts of up to 2 arbitrary bytes under every option, every two-byte and three-byte UTF-8 header with all continuation bytes and representative prefixes of four-byte characters; all 64-bit integers',
  'Whether every code point survives is a property of the bit arithmetic over all of Unicode, of which tests print a handful of characters.',
  ['src/utils/json/format.cpp', 'src/utils/json/writer.h', 'src/utils/json/printer.cpp'],
  [('formatString / escapeUnicode / readUnicode', 'src/utils/json/format.cpp'), ('Writer::Options', 'src/utils/json/writer.h')],
  ['the text written and the error of the writer'],
  AI.replace('a decision table', 'a reference decoder of JSON and UTF-8'), note=TRUST)
P('C25', 'Printed JSON arrays and objects are well-formed, complete and indented',
  'printArray and printObject hand every entry that is not skipped to the print function exactly once and in order, write brackets, separators, and keys as JSON strings around them, and leave well-formed text whatever entries are skipped. Once an entry fails no further entry is printed. '
  'White space is only written with Pretty; then every line is indented by four spaces for each enclosing multi-entry container, at any depth.',
  ['inputs'], 'up to 3 entries, every choice of skipped and failing entries, inside up to 2 outer entries, pretty and not; indentation at depths up to 2049',
  'Comma placement depends on which entries are skipped, and indentation past the preallocated padding is only reached at depths no test nests to.',
  ['src/utils/json/printer.tcc', 'src/utils/json/writer.cpp', 'src/utils/json/writer.h'],
  [('printArray / printObject', 'src/utils/json/printer.tcc'), ('Writer::newline', 'src/utils/json/writer.cpp')],
  ['the text written, the calls of the print function and the error of the writer'],
  AI.replace('a decision table', 'a reference layout'), note=TRUST)
P('C26', 'JSON text is read into the reflected object it describes',
  'json::parse stores the values of the text into the object behind the Value according to its reflected type: scalars of matching type, pointers (null clears, anything else is read into the present or a newly made pointee), lists appended in order, maps by key, and members by name or alias, '
  'with skipped and unknown members passed over and members that do not appear left alone; types with a custom parser use it. Malformed or wrongly typed text at any depth is an error of the reader; parsing never ends the process on text alone. Two unskipped members under one key are an error.',
  ['inputs', 'programs'], 'about 40 reflected types (scalars, raw and shared pointers, lists, maps, objects, recursive types, custom parsers, each nested in others), empty or already filled, against some 30 texts each',
  'Which parser runs is decided through type, trait and pointer dispatch at run time; the combinations of type shape, present contents and text are far more than the few objects tests read.',
  ['src/utils/json/parser.cpp', 'src/utils/json/traits.h', 'src/types/pointer.h', 'src/types/std/smart_ptr.h'],
  [('Parser dispatch (ValueParser, ObjectParser, ArrayParser, MapParser, PointerParser)', 'src/utils/json/parser.cpp')],
  ['the object after parsing and the error of the reader'],
  AI.replace('a decision table', 'a reference parser of typed objects'), note='Types, values and fields are modelled at the level of the public reflection API. ' + TRUST)
P('C27', 'Printed reflected objects carry every member under its key',
  'json::print writes the JSON text of the object behind the Value according to its reflected type: scalars, the pointee or null for pointers, all items of lists and maps in order, and all members of objects in the order of their keys, under their name or alias, '
  'except skipped ones and, with skipEmpty or Compact, those that are empty (zero numbers, empty strings, lists and maps, and pointers which are null or lead to something empty; booleans and objects never are). Types with a custom printer use it. An error at any depth is an error of the writer. Void values and two unskipped members under one key are an error.',
  ['inputs', 'programs'], 'about 40 reflected types with all their member option combinations, up to 25 objects each, in the default, Compact and Pretty layouts',
  'The dispatch over type traits and member options happens at run time, and what is left out of the text depends on contents; tests print a handful of objects.',
  ['src/utils/json/printer.cpp', 'src/utils/json/traits.h'],
  [('Printer dispatch (ObjectPrinter, ArrayPrinter, MapPrinter, PointerPrinter)', 'src/utils/json/printer.cpp')],
  ['the text written and the error of the writer'],
  AI.replace('a decision table', 'a reference printer of typed objects'), note='Types, values and fields are modelled at the level of the public reflection API. ' + TRUST)
P('C09', 'C++ types and signatures are described as they were declared',
  'Argument::make, reflectReturn, reflectArguments and Function describe every type by its bare type (references and qualifiers stripped, pointees too), its reference kind and its constness, whether given as a type or deduced from a value; a Value is described by what it refers to. '
  'Free, static and member functions, functors and lambdas list their result and parameters in order, members with their object first (const for const members). typeId composes the names of templates and pointers from those of their arguments, and printing names type, const and reference of each.',
  ['programs'], 'some 30 forms of types, 7 forms of values, 16 kinds of callables with up to 6 parameters, nested templates',
  'The description is computed by template metaprogramming from every signature a user reflects; tests use a few, and everything else (matching, conversion, calls) trusts it.',
  ['src/ref_type.h', 'src/argument.tcc', 'src/function_type.h', 'src/function.tcc', 'src/clean_type.h', 'src/argument.cpp', 'src/function.cpp', 'src/dsl/template.h', 'src/types/pointer.h', 'src/types/std/map.h'],
  [('makeRefType / isConst', 'src/ref_type.h'), ('FunctionType', 'src/function_type.h'), ('CleanType', 'src/clean_type.h'), ('reflectArguments', 'src/function.tcc')],
  ['the types, reference kinds and constness of results and parameters, and the printed text'],
  AI.replace('a decision table', 'the declarations'), note='Pointers and their pointees share one reflected type whatever the constness of the pointee. ' + TRUST)
P('C28', 'JSON member options start neutral, are made alone and combine',
  'A fresh json::Traits and each of the options skip(), skipEmpty(), alias() and custom() says exactly what it is made for and nothing else. Combining two with operator| skips when either does, skips empty members when either does, and takes alias, parser and printer each from the left operand unless it has none, changing neither operand.',
  ['inputs'], 'all settings of the flags, and of which texts are given, on both sides (any contents)',
  'The options decide which members appear in a document; combinations of them do not occur in the tests.',
  ['src/utils/json/traits.cpp', 'src/utils/json/traits.h'],
  [('Traits::operator|', 'src/utils/json/traits.cpp'), ('skip / skipEmpty / alias / custom', 'src/utils/json/traits.cpp')],
  ['the members of the resulting options'], AI, note='Known finding: skipEmpty is not initialised; a stable test depends on the garbage, so it is recorded rather than repaired. ' + TRUST)
P('C10', 'Errors carry their message and never let the caller go on',
  'Raising an error through reflectError, reflect::error or verror never returns: the program ends, or with exceptions on a reflect::Error is thrown, and what is printed or thrown says file:line: and then the formatted message. Every format of the library only converts arguments it is given, each in a way that suits its type, and every argument reaches the formatting function unchanged. '
  'Formatting never reaches outside its buffer, whatever the length of the message: messages of up to 1000 characters arrive whole and longer ones as a prefix. A default Error is false and empty, one with a text is true and carries it, also when copied or assigned. JSON readers and writers keep the first error they are given, readers with its line, and are false from then on.',
  ['inputs', 'programs'], 'every use of an error format, every combination of argument types in use, messages of any text and of 18 lengths around the buffer size',
  'Error paths end the process, so tests exercise almost none of them; a wrong conversion or an overlong message corrupts memory exactly when the user needs the message.',
  ['src/error.h', 'src/error.cpp', 'src/utils/json/error.h', 'src/utils/json/reader.tcc', 'src/utils/json/writer.tcc'],
  [('verrorFormat / verror', 'src/error.cpp'), ('errorFormat / error', 'src/error.h'), ('Reader::error', 'src/utils/json/reader.tcc'), ('Writer::error', 'src/utils/json/writer.tcc')],
  ['the message printed or thrown, process survival, error() of readers and writers'], AI, note=TRUST)
P('C11', 'Types declared with the macros have exactly what they name',
  'A declared operator is callable under its C++ name and through the same operator of Value, calls that very operator of the class on that object with those arguments, and yields its result. A declared field is at the address of the member it names. A declared function, constructor, conversion, custom function or inherited function calls what it names with the arguments given and yields the result. Traits and values are on what they were put on and nothing else; sizeof is the size of the type. '
  'The plumbing gives a type exactly the construction, copy, move, assignment and allocation the C++ type has, each performed by the matching C++ operation; new hands out the object it made. Global functions of a scope are called by name, global variables are read and written in place, constants only read.',
  ['programs', 'inputs'], 'a program declaring every operator and every kind of member, function, constructor, trait and global; every operation on them, over all objects and results',
  'There is one macro or template per operator and plumbing function; tests use a few, and a swapped name or an operation performed on a copy compiles.',
  ['src/dsl', 'src/value.h', 'src/type.tcc', 'src/scope.tcc'],
  [('operators', 'src/dsl/operators.h'), ('plumbing', 'src/dsl/plumbing.h'), ('fields and functions', 'src/dsl/field.h'), ('scopes', 'src/dsl/scope.h')],
  ['which function of the program is called on which objects; results; addresses; hasFunction, is, getValue'], AI, note=TRUST)
P('C18', 'A reflected function owns what it calls',
  'A Function made from a callable holds a callable of its own which descends, by copies and moves of objects which are still whole, from the one given, and every call runs that one object. A callable given as an lvalue, to a Function, a type, a scope or the macros, is left as it was. Callables are made in storage where none lives; every one which is made is destroyed exactly once and its storage freed exactly once, after that, also when the function is never called, is moved, assigned over another one, moved away and refilled, swapped, or moved onto itself. '
  'A moved function calls what it was moved from; functions of one name side by side each call their own callable. State which a callable keeps or captures by value is its own, and what it captures by reference is shared.',
  ['programs', 'histories'], 'functors which are mutable, constant, only copyable, only movable and of several sizes and arities; 18 life histories each; lambdas, pointers and member functions',
  'Callables are kept in untyped storage and freed through a hand-made virtual function, so a leak, a double destruction or a moved-from original is invisible to tests which look at results.',
  ['src/value_function.h', 'src/value_function.cpp', 'src/function.tcc', 'src/function.cpp', 'src/type.tcc', 'src/scope.tcc', 'src/overloads.cpp'],
  [('makeValueFunction / freeValueFunction', 'src/value_function.h'), ('Function', 'src/function.cpp'), ('Type::addFunction', 'src/type.tcc'), ('Scope::addFunction', 'src/scope.tcc')],
  ['constructors, destructors and call operators of the callable which run, and on which objects; storage allocated and freed; results of calls'], AI, note=TRUST)
P('C29', 'The types of the language are reflected as what they are',
  'In a program which uses the library, every arithmetic type, void, std::string and pointers to reflected types are known without any declaration, under the name C++ has for them, and every typedef of the standard integer headers is known under its own name as the type it stands for on this platform. Each has exactly the traits of what it is: primitive, bool, integer, signed, unsigned, float, void, string, pointer. '
  'Numbers have the smallest and largest value numeric_limits has for them, can be made, copied, assigned and allocated, and + adds them with the result type C++ gives it. The truth of a pointer is whether it is null; * of one yields the very object it points to, constant through a constant pointer.',
  ['programs', 'inputs'], 'every arithmetic type, every typedef, pointers to numbers, pointers and classes, the strings of a text, on this platform',
  'There are fifteen numbers and thirty-six names; tests use a few of them, and a wrong or missing entry only shows for the type concerned.',
  ['src/types/primitives.cpp', 'src/types/primitives.tcc', 'src/types/primitives.h', 'src/types/pointer.h', 'src/types/std/string.cpp'],
  [('reflectNumberImpl', 'src/types/primitives.tcc'), ('PrimitiveAliases', 'src/types/primitives.cpp'), ('Reflect<T*>', 'src/types/pointer.h'), ('std::string', 'src/types/std/string.cpp')],
  ['id, is, getValue, pointee of a type; type by name; results of calls'], AI, note=TRUST)
P('C30', 'Containers and smart pointers work through reflection as they do in C++',
  'A reflected vector, map, unordered map, shared_ptr or unique_ptr is described as list, map or smart pointer with its element, key and value types or pointee. size, clear, resize, push_back, count, keys and reset do to the container what the C++ operation of that name does, and nothing else. at of a list yields that very element for an index inside it and reports an error for every other index; [] yields the element itself, so a write through it is seen. '
  'at of a map yields the value of exactly that key, an error if there is none, and never adds one; [] adds an absent key. push_back of an expiring object moves it, of any other copies it and leaves it as it was. get, *, truth, == and release of a smart pointer give the pointer held; reset and release leave it holding what they should, destroying what a unique_ptr held exactly once.',
  ['inputs', 'histories'], 'lists of up to three unknown elements and every index; maps of up to two entries with unknown values and every key; smart pointers to an object and null',
  'A boundary which is off by one, a key which is only missed in some order, an element which is copied instead of moved stay invisible to tests which read one element back.',
  ['src/types/std/vector.h', 'src/types/std/map.h', 'src/types/std/smart_ptr.h'],
  [('std::vector', 'src/types/std/vector.h'), ('reflectMap', 'src/types/std/map.h'), ('reflectSmartPtr', 'src/types/std/smart_ptr.h')],
  ['results and errors of the functions; contents of the container after them; addresses; objects made, copied, moved, destroyed'], AI, note=TRUST)
P('C31', 'A JSON token is what it was made of and only converts to what it is',
  'A Token has the type it was made with, also when copied or assigned, and a default one is NoToken. asBool, asInt and asString give the value of a token of type Bool, Int or String, and asFloat of Int and Float tokens; asked of any other type, each of them raises an error of the library rather than giving a value. print names the type of the token and, when it has one, shows its value.',
  ['inputs'], 'all types of tokens, made of nothing, of either boolean or of a text (open texts for strings), and every conversion',
  'Six questions over thirteen types and three ways to make a token are 200 combinations of which the tests ask a few, and a conversion which is not refused gives a plausible value.',
  ['src/utils/json/token.h', 'src/utils/json/token.cpp'],
  [('reflect::json::Token', 'src/utils/json/token.h'), ('Token::asInt', 'src/utils/json/token.cpp')],
  ['value or error of each question'], AI, note=TRUST)
P('C32', 'Descriptions of types and scopes show everything that was declared, once',
  'print of a Type shows its id, the description of its parent, its traits, its own fields by offset, each with the offset in hexadecimal, the id of its type, its name and its traits, and each of its own functions with the traits and the signature of every overload. print of a Scope shows its name, traits, functions with every overload, types and the descriptions of all scopes inside it. Nothing is left out or shown twice, whichever other members there are. RefType and Match values print as their names and other values are an error.',
  ['inputs', 'histories'], 'all combinations of up to two or three traits, fields, functions with overloads, types and inner scopes, with up to two levels of parents',
  'What is printed is read by people and no test looks at it: a member which is missing only beside certain others is never noticed.',
  ['src/type.cpp', 'src/scope.cpp', 'src/traits.cpp', 'src/overloads.cpp', 'src/field.cpp'],
  [('Type::print', 'src/type.cpp'), ('Scope::print', 'src/scope.cpp'), ('Overloads::print', 'src/overloads.cpp'), ('Traits::print', 'src/traits.cpp')],
  ['the printed text, line by line'], AI, note=TRUST)
P('C33', 'Containers, smart pointers and classes nest in JSON in any combination',
  'Standard vectors, maps with string keys, shared, unique and raw pointers and classes, inside each other and as members, are read and written as one document. Reading appends to lists, replaces or adds the entries of maps which are named, fills the members of classes by name and leaves the others, reads into what a pointer holds or makes it when it holds nothing, and null resets pointers and reads nothing elsewhere; members which are unknown are passed over. A value of the wrong type at any depth is an error of the reader. Printing gives JSON with exactly what the object holds: the inherited members also, sorted; Compact leaves out members which are empty.',
  ['inputs', 'histories'], 'eighteen members with up to three levels of vectors, maps, pointers and classes, fresh and already filled; 80 texts with open digits, 60 refused texts, three sets of options',
  'Each container is tested alone and mostly empty beforehand; what is lost or left over when they nest, or when the object already holds something, is not.',
  ['src/utils/json/parser.cpp', 'src/utils/json/printer.cpp', 'src/types/std', 'src/types/pointer.h'],
  [('PointerParser', 'src/utils/json/parser.cpp'), ('ArrayParser', 'src/utils/json/parser.cpp'), ('MapParser', 'src/utils/json/parser.cpp'), ('ObjectParser', 'src/utils/json/parser.cpp'), ('ArrayPrinter', 'src/utils/json/printer.cpp'), ('MapPrinter', 'src/utils/json/printer.cpp'), ('reflectMap', 'src/types/std/map.h'), ('reflectSmartPtr', 'src/types/std/smart_ptr.h')],
  ['the members of the object after parsing, pieces in order; the printed text as JSON'], AI, note=TRUST)
P('C34', 'Values are used as the objects they hold',
  'An operator, function, field or conversion used through a Value is that of the object it holds: the operator the type (or its nearest ancestor) has under that name runs exactly once, on that very object, with the arguments given, all of them, and its result is a Value which refers to what it returned by reference, constant if that is, holds what it returned by value, or is void. A constant object refuses operators, functions and assignments which change it. What the type does not have, wrong arguments, their number, a result which is not there and any use of a void Value are errors and run nothing. The truth of a Value is the conversion of its type to bool; ! is the operator of the type and, where it has none, the negation of its truth.',
  ['inputs', 'programs'], 'classes with a truth only, with ! as well, with neither and derived ones, all truths; a class with nineteen operators and functions, constant or not, derived or not',
  'Each operator is one line of macro use, of which the tests run the plain cases: what ! does where there is none, surplus arguments, constant objects and derived classes are not tried.',
  ['src/value.h', 'src/value.tcc', 'src/value.cpp'],
  [('Value::operator!', 'src/value.cpp'), ('Value::call', 'src/value.tcc'), ('Value operators', 'src/value.h'), ('Value::assign', 'src/value.tcc'), ('Value::convert', 'src/value.tcc')],
  ['which functions of the program run, on which objects, and the Value they yield'], AI, note=TRUST)
# ------------------------------------------------------------------ not applicable
P('N01', 'Floating point numbers survive printing and parsing',
  'A floating point number written as JSON and read back compares equal to the original.',
  ['inputs'], 'all finite doubles', 'Tests use numbers with few significant digits.',
  ['src/utils/json/format.cpp', 'src/utils/json/token.cpp'], [('formatFloat', 'src/utils/json/format.cpp')], ['printed text'],
  na='Decided by the rounding behaviour of snprintf and strtod in the C library over 2^64 values: a numeric property no static argument over this source reaches (and known not to hold: 12 significant digits are printed).')
P('N02', 'Any reflected object printed as JSON parses back to an equal object',
  'Printing an object whose type is fully reflected and parsing the text into a fresh object yields an equal object.',
  ['inputs', 'programs'], 'all values of all reflected types', 'Tests round-trip a few objects.',
  ['src/utils/json/printer.cpp', 'src/utils/json/parser.cpp'], [('Printers and parsers', 'src/utils/json')], ['parsed object'],
  na='Full round-trip equality needs the contents of arbitrary object graphs at run time; the parts static analysis can reach (dispatch agreement, escape tables, member filtering, bracket balance) are separate properties.')
P('N03', 'Deeply nested input does not exhaust the stack',
  'Parsing a document nested to any depth either succeeds or reports an error.',
  ['inputs'], 'all nesting depths', 'Tests nest a few levels.',
  ['src/utils/json/parser.tcc'], [('skip', 'src/utils/json/parser.tcc')], ['process survival'],
  na='Stack consumption depends on the run-time stack limit and frame sizes; the source has unbounded recursion by design and no depth limit to check against.')
P('N04', 'Concurrent first use of a type never deadlocks or livelocks',
  'Any number of threads loading mutually dependent types all finish.',
  ['schedules'], 'all interleavings and all type graphs', 'Tests are single-threaded.',
  ['src/registry.cpp'], [('Registry::get/load', 'src/registry.cpp')], ['thread progress'],
  na='Progress depends on user loaders run under the registry lock and on the scheduler; only the locking discipline is statically decidable here and is stated separately.')
