# The properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this list and checks.py.
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None,
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})))

PROPS = [
P("C01", "Strings are independent values under every history of operations",
  "After any sequence of string operations (construction from text, bytes, characters or borrowed static data, copying, assignment, slicing, concatenation, appending, inserting, prepending, repeating, fetching UTF-8 text), every string holds exactly the character sequence its own history implies, as seen through its length, each indexed character, its UTF-8 bytes and its NUL-terminated UTF-8. Changing one string never changes any other, including one it was copied or sliced from, shares storage with, or was itself the argument of the same operation. Borrowed static text is never written to or freed.",
  ["histories", "inputs"], "All histories of operations on a pool of strings that share, slice and extend each other's storage, over text with 1- to 4-byte characters and stray bytes.",
  "strval_test and medley_test run a handful of straight-line examples and check only that they run to the end; aliasing, slice offsets and bookmarks depend on the order of earlier operations.",
  ["include/strval.h", "include/array.h", "include/refcount.h"],
  [("copy-on-write Unshare/copyBody", "include/strval.h StrValI::Unshare"), ("character index with bookmark", "include/strval.h StrBodyI::nthChar"), ("contiguous-slice fast paths", "include/strval.h insert/operator+")],
  ["length()", "operator[]", "asUTF8()", "operator=="],
  [("offset/num_chars", "the slice of the shared body, in characters", "include/strval.h StrRefI"), ("mark", "cached character/byte position pair", "include/strval.h StrValI")]),
P("C02", "String search, slicing and comparison agree with the character sequence",
  "For any two strings, however they were built or sliced, forward and reverse searches for a character, a substring, or any character in or not in a set return the first (or last) matching position within the string after (or before) the given position, or -1 when there is none. Substrings, heads, tails and shortened strings contain exactly the requested characters, clamped to the string. Comparison is a total order consistent with equality, in code point order, with a proper prefix sorting first.",
  ["inputs", "histories"], "All pairs of strings and slices of shared storage, all start positions, all search sets including empty ones.",
  "The tests call find and compare on few literals; slices whose storage continues past their end, longer needles, and multi-byte neighbours are not covered.",
  ["include/strval.h"],
  [("find/rfind/findAny/rfindAny/findNot/rfindNot", "include/strval.h"), ("substr/head/tail/shorter", "include/strval.h"), ("compare", "include/strval.h StrValI::compare")],
  ["find", "rfind", "substr", "compare"]),
P("C03", "UTF-8 encoding and decoding are exact inverses and never lose position",
  "Every 32-bit character value other than the reserved illegal-byte and no-character markers encodes to the unique minimal sequence of 1 to 6 bytes, and decoding that consumes exactly those bytes and gives the value back. Decoding any NUL-terminated byte string steps through all of it without reading past the terminator, reports each byte that is not part of a complete sequence as one illegal-byte marker that re-encodes to the same byte, and the measured length always equals the length consumed. Backing up from any position reached by decoding goes to exactly the position decoding came from, and never crosses the given limit; a padded zero of n bytes decodes as zero from exactly n bytes.",
  ["inputs"], "All 2^32 character values and all byte strings.",
  "char_encoding_test samples the boundary value of each length and one broken sequence of each kind, never in context with other characters.",
  ["include/char_encoding.h"],
  [("UTF8Put/UTF8Get/UTF8Len", "include/char_encoding.h"), ("UTF8Backup", "include/char_encoding.h"), ("UTF8PutPaddedZero", "include/char_encoding.h")],
  ["bytes written", "pointer advance"]),
P("C04", "UTF-16 encoding and decoding are exact inverses in both byte orders",
  "Every Unicode code point outside the surrogate range encodes to one UTF-16 unit, or to a high then low surrogate pair when above U+FFFF, in native or swapped byte order, and decoding in the same order returns the code point and consumes exactly those units. The reported lengths equal the units written and consumed, and surrogate classification is exact for every unit.",
  ["inputs"], "All 1,112,064 Unicode scalar values and all sequences of them, both byte orders.",
  "No test calls the UTF-16 functions at all.",
  ["include/char_encoding.h"],
  [("UTF16Put/UTF16Get/UTF16Len", "include/char_encoding.h"), ("surrogate arithmetic", "include/char_encoding.h UCS4HighSurrogate/UCS4LowSurrogate")],
  ["units written", "pointer advance"]),
P("C05", "Character classes and case maps follow Unicode, whatever was asked before",
  "For every character value, the upper, lower and title case mappings, digit values, hexadecimal digit values and the alphabetic, white-space and ASCII/Latin-1/Unicode classifications are those of the Unicode character database for the repertoire the library covers, and a character outside it maps to itself and is not classified. The answer for a character never depends on which characters were asked about before, or on concurrent callers.",
  ["inputs", "histories", "schedules"], "All character values, and all sequences of queries (the tables are searched through a memo of the last hit).",
  "The tests check about fifty hand-picked characters in one fixed order and no case conversions at all.",
  ["include/char_encoding.h", "src/char_encoding.cpp", "src/case_conversions.c"],
  [("range tables with memo of the last range", "src/char_encoding.cpp"), ("title-case exceptions", "src/char_encoding.cpp UCS4ToTitle")],
  ["UCS4ToUpper/ToLower/ToTitle", "UCS4Digit", "UCS4IsAlphabetic"],
  [("last_memo", "index of the range that matched last", "src/char_encoding.cpp")]),
P("C06", "Case conversion and transformation rewrite exactly the string they act on",
  "Converting a string to upper or lower case gives the same number of characters, each the case mapping of the one it replaces, even when encoded lengths change; the as-upper and as-lower forms leave the original unchanged. A general transformation calls its function on successive unconsumed text after the given position, replaces exactly what each call consumed by what it returned, copies the rest unchanged, and stops transforming at the first call that consumes nothing. Every other string that shared storage with the transformed one keeps its value.",
  ["inputs", "histories"], "All strings and slices, all start positions, transformation functions that consume and produce any number of characters.",
  "medley_test transforms one literal; slices, shared storage and characters whose case mapping has another encoded length are not covered.",
  ["include/strval.h"],
  [("StrBodyI::transform", "include/strval.h"), ("toLower/toUpper", "include/strval.h")],
  ["asUTF8()", "length()"]),
P("C07", "Every value renders as valid JSON that decodes to the same value",
  "The JSON text produced for any variant value (null, integers of every width, strings of any Unicode characters, string arrays, and arbitrarily nested arrays and maps), in tight, single-line and indented form at any starting indent, is accepted by a strict JSON parser and decodes to the same value, with map keys preserved. The escaped form of a bare string between double quotes is likewise a valid JSON string literal for that string. The three forms differ only in white space between tokens.",
  ["inputs"], "All variant trees and all strings of Unicode scalar values; all indents.",
  "variant_test prints a few values without checking them; no emoji, control character, NUL, or deep nesting is checked.",
  ["include/strval.h", "include/variant.h"],
  [("toJSON escaping", "include/strval.h StrBodyI::toJSON"), ("as_json", "include/variant.h Variant::as_json")],
  ["as_json()", "asJSON()"]),
P("C08", "String to integer conversion is exact or reports why not",
  "Converting a string to a 32-bit integer in radix 0 or 2 to 36 yields exactly the number the string spells, with leading and trailing blanks and a sign allowed, and radix prefixes 0b, 0x and leading 0 recognised as documented. Otherwise the error says which it was: blank only, not a number, trailing text, out of range for the type, or illegal radix, and the number of characters scanned is reported. No error is reported for a string that spells a representable number, and none that does not is accepted silently.",
  ["inputs"], "All strings, all radixes, with and without the optional outputs.",
  "No test checks a conversion; the few uses inside the regular expression compiler pass small decimal numbers.",
  ["include/strval.h"],
  [("asInt32", "include/strval.h StrValI::asInt32")],
  ["return value", "err_return", "scanned"]),
P("C09", "Arrays are independent values under every history of operations",
  "After any sequence of array operations (construction, copying, slicing, pushing, pulling, shifting, unshifting, inserting, appending, concatenating, setting, removing, deleting by condition, reversing, clearing), each array holds exactly the element sequence its own history implies. Changing one array or slice never changes any other, including the array it was sliced from or one that is also the argument of the operation. Every element is copied, assigned and destroyed properly exactly as often as it is created.",
  ["histories", "inputs"], "All histories over a pool of arrays and slices that share storage, with plain and reference-counted element types.",
  "array_test runs one straight-line example and only checks that it ends; offsets of slices and sharing depend on earlier operations.",
  ["include/array.h", "include/refcount.h"],
  [("copy-on-write Unshare", "include/array.h ArrayR::Unshare"), ("ArrayBody insert/remove/resize", "include/array.h ArrayBody"), ("contiguous-slice fast paths", "include/array.h insert/operator+")],
  ["length()", "elem()", "asElements()"],
  [("offset/num_elements", "slice of the shared body", "include/array.h ArrayR")]),
P("C10", "Array searches, comparisons and functional operations match their definitions",
  "For any array or slice, including an empty one, linear searches in both directions return the first or last matching index beyond the given position or -1; each, all, any, one, select, map, inject and detect visit exactly the elements of the slice in order and return what their definitions say without changing the array. Binary search in an ordered slice finds an index that compares equal whenever one exists, probing only elements of the slice. Comparison is lexicographic, a shorter prefix sorting first, and consistent with equality.",
  ["inputs"], "All arrays, slices, predicates, start positions and search keys.",
  "array_test never compares a result; empty arrays, slices at an offset, and keys beyond either end are not covered.",
  ["include/array.h"],
  [("find/rfind/bsearch", "include/array.h"), ("each/all/any/one/select/map/inject", "include/array.h"), ("compare", "include/array.h")],
  ["return values", "callback sequence"]),
P("C11", "Copy-on-write maps are independent values that behave as ordered maps",
  "After any sequence of map operations (construction, copying, assignment, insert, put, remove, clear), lookups, membership, size and in-order iteration of each map give exactly what an ordered map with the same history would give: insert keeps an existing entry, put replaces it, and looking up a missing key gives a default value without adding it. Changing one map never changes a copy of it, or what an iteration already started on it goes on to visit. The functional operations (keys, values, each, all, any, one, select, map, inject) visit the entries in key order and return what their definitions say.",
  ["histories", "inputs"], "All histories over a pool of maps that share storage; string and integer keys.",
  "Only variant_test touches a map, filling one and printing it.",
  ["include/cowmap.h"],
  [("CowMap::Unshare", "include/cowmap.h"), ("put/insert/remove", "include/cowmap.h")],
  ["find", "contains", "operator[]", "iteration"]),
P("C12", "A variant holds exactly the typed value it was given, however it is copied",
  "A variant reports the type it was constructed or assigned with, and reading it as that type gives exactly the value stored, through any history of copying, assigning (also to itself and over any other type), storing inside arrays and maps, and mutation through the references it returns. Coercion between integer widths and between integers and strings converts without loss, and changes the type to the requested one; a coercion that would lose information is refused rather than giving a wrong value. Changing a variant never changes another one copied from it.",
  ["histories", "inputs"], "All histories of constructing, copying, assigning and coercing variants of every type.",
  "variant_test constructs one of each and prints it.",
  ["include/variant.h"],
  [("copy constructor and assignment by type", "include/variant.h"), ("coerce", "include/variant.h Variant::coerce")],
  ["type()", "as_* accessors", "as_json"]),
P("C13", "All memory is reclaimed exactly once, whatever the history",
  "When every string, array, map, variant, error, parse result and compiled expression of any history has been destroyed, all the memory they allocated has been freed; none of it is freed twice, used after being freed, or read or written outside its bounds, on any path including failed parses, failed matches and rejected expressions.",
  ["histories", "inputs"], "All histories of operations on all of the library's owning types.",
  "memory_monitor counts allocations in a few fixed programs without failing on a difference; the sharing structure that decides who frees what depends on the history.",
  ["include/refcount.h", "include/array.h", "include/strval.h", "include/variant.h", "include/cowmap.h", "include/error.h", "rx/rxcompile.cpp", "rx/rxmatch.cpp"],
  [("Ref<T> and RefCounted", "include/refcount.h"), ("Variant destruction by type", "include/variant.h coerce_none"), ("RxProgram/RxResult ownership", "rx/rxmatch.cpp")],
  ["allocator balance", "AddressSanitizer"]),
P("C14", "Values shared between threads stay correct without locking",
  "When several threads concurrently copy, read, slice, modify and destroy their own string, array, map, variant and error objects that share storage with each other's, every thread sees exactly the values its own operations imply. Shared storage is never modified while another thread can see it, and is freed exactly once after its last user is gone; there is no data race. Several threads may also match with one compiled regular expression at the same time, each getting the result it would get alone.",
  ["schedules", "histories"], "All schedules of threads that each own objects sharing storage.",
  "thread_test is not part of the test run and shares no values; the rest of the tests are single-threaded.",
  ["include/refcount.h", "include/strval.h", "include/array.h", "include/cowmap.h", "src/char_encoding.cpp", "rx/rxmatch.cpp"],
  [("atomic reference count", "include/refcount.h"), ("copy before mutation when shared", "include/strval.h, include/array.h, include/cowmap.h")],
  ["values per thread", "ThreadSanitizer"]),
P("C15", "Pegular expressions match exactly what their definition says",
  "For every well-formed pegular expression and every input text, matching at a position succeeds or fails, and consumes exactly as much text, as the documented possessive semantics of its operators define: literals, escapes, character classes and properties, any character, line start and end, groups, ordered alternates, possessive optional and repeated atoms, and positive and negative look-ahead. Searching returns the first position at which such a match exists, or failure at the end of input. Matching always terminates.",
  ["inputs", "programs"], "All well-formed pegular expressions of any nesting and all NUL-terminated UTF-8 inputs.",
  "pegexp_test has about 200 expression/text pairs with mostly one operator each; nesting of operators under others is hardly covered.",
  ["include/pegexp.h"],
  [("match_atom/match_sequence", "include/pegexp.h Pegexp"), ("skip_atom", "include/pegexp.h Pegexp::skip_atom"), ("char_class", "include/pegexp.h")],
  ["match()", "match_here()", "source position"]),
P("C16", "Match results carry the right text, location and captures",
  "Wherever a parse or match has reached, the source reports the true byte offset, line number (from 1, counting newlines) and column (from 1, in characters since the last newline) of that point, also after backtracking and in copies, and the text between two points is exactly the bytes between them. Each labelled atom outside look-ahead that took part in the successful match is captured once per occurrence, in order, with its label and exactly the text it matched, and captures made on abandoned paths are withdrawn.",
  ["inputs", "programs"], "All multi-line UTF-8 inputs, all labelled pegular expressions, all backtracking histories.",
  "pegexp_test checks only the extent of a match; nothing checks lines, columns or rollback.",
  ["include/pegexp.h"],
  [("PegexpPointerSource counters", "include/pegexp.h"), ("capture/rollback_capture calls", "include/pegexp.h match_atom")],
  ["current_byte/line/column", "Context::capture calls"]),
P("C17", "A PEG parser recognises exactly the language of its grammar",
  "For every grammar of named rules, parsing an input from the top rule succeeds or fails, and consumes exactly as much, as the ordered-choice semantics of parsing expression grammars define for those rules, with each reference resolved to the rule of exactly that name whatever order and names the rules have. A rule that calls itself without consuming anything fails at that point rather than recursing without end, so parsing always terminates.",
  ["programs", "inputs"], "All grammars over any rule names, including mutually recursive and left-recursive ones, and all inputs.",
  "peg_test is built but not run, and has a single grammar; only the size test is part of the run.",
  ["include/peg.h", "include/pegexp.h"],
  [("rule lookup by binary search", "include/peg.h Peg::lookup"), ("recursion guard", "include/peg.h Peg::recurse"), ("rule calls", "include/peg.h PegPegexp::match_extended")],
  ["parse()"]),
P("C18", "Parse trees hold exactly the captures asked for, and failures say where",
  "The tree returned by a capturing parse contains, under each capture name a rule lists, exactly the text or sub-tree matched by that label or rule call (a list when captured repeatedly or inside a repetition), and nothing else. The furthest location a parse reached and the set of expression atoms that failed there are reported without duplicates, each with the path of rules that led to it.",
  ["programs", "inputs"], "All capturing grammars, all inputs that match or fail.",
  "peg_test is not part of the run, and prints its tree for inspection.",
  ["include/peg_ast.h", "include/peg.h"],
  [("PegContext::capture/rollback_capture", "include/peg_ast.h"), ("record_failure", "include/peg_ast.h")],
  ["PegMatch::var", "furthermost_success", "failures"]),
P("C19", "Regular expression matching finds the leftmost longest match",
  "For every supported regular expression and input, a search succeeds exactly when some substring matches, and returns the earliest starting match, and the longest from there; a match anchored at the start considers only that position. Alternation, repetition with any bounds, classes, any-character, anchors, groups and look-ahead mean what the documentation says. Matching takes time proportional to the text for a given expression, without backtracking blow-up.",
  ["inputs", "programs"], "All expressions of the supported syntax (features enabled) and all inputs.",
  "rxmatch_test has some 150 fixed pairs, mostly of a single construct.",
  ["rx/rxcompile.cpp", "rx/rxmatch.cpp", "rx/strregex.h"],
  [("Thompson simulation", "rx/rxmatch.cpp RxMatch"), ("compilation to NFA code", "rx/rxcompile.cpp RxCompiler")],
  ["RxResult offset and length"]),
P("C20", "Any text offered as a regular expression compiles or is rejected with a message",
  "Compiling any string under any combination of enabled features either produces a program that can be run safely on any text, or is rejected with an error message that describes the problem and its location, without crashing, hanging, or touching memory outside its buffers. Compilation is deterministic, and a construct that is not enabled is treated as literal text or rejected, never misread.",
  ["inputs", "configurations"], "All pattern strings, well-formed or not, and all feature masks.",
  "rxcompile_test compares the code of fixed patterns, few of them malformed.",
  ["rx/rxcompile.cpp", "rx/rxmatch.cpp"],
  [("scan_rx and its error exits", "rx/rxcompile.cpp"), ("size estimate before emission", "rx/rxcompile.cpp compile")],
  ["compile()", "ErrorMessage()", "ErrorOffset()"]),
P("C21", "Named groups report text that the group really matched",
  "When a regular expression with named groups matches, the match is the same as without the names, and each named group that took part reports offsets inside the match, in order, whose text is a match of that group's own expression; a group that took no part reports none. Copies of a result keep their captures whatever happens to the others.",
  ["inputs", "programs"], "All expressions with named groups, repetition and alternation, and all inputs.",
  "rxmatch_test has no expression with a named group whose capture is checked.",
  ["rx/rxmatch.cpp", "rx/rxcompile.cpp", "rx/strregex.h"],
  [("capture instructions", "rx/rxmatch.cpp RxoCaptureStart/End"), ("RxResult sharing", "rx/rxmatch.cpp RxResult")],
  ["RxResult::capture"]),
P("C22", "Guarded pointers never leave the text they guard",
  "A NUL-guarded character pointer, byte or UTF-8, never moves past the terminating NUL whatever is added to it, and a fully guarded one also never moves before its start whatever is subtracted or decremented, in every spelling (pre and post increment and decrement, +=, -=, + and -). Within those limits it moves by exactly the requested number of characters, its end-of-text and start-of-text tests are true exactly at those places, and differences are exact byte distances.",
  ["histories", "inputs"], "All texts and all sequences of pointer movements.",
  "utf8pointer_test walks one string forward and back.",
  ["include/char_ptr.h", "include/utf8_ptr.h"],
  [("operator+= and preincr/predecr guards", "include/char_ptr.h, include/utf8_ptr.h")],
  ["pointer value", "at_eof/at_bot"]),
P("C23", "Joining strings concatenates all of them with the joiner between",
  "Joining an array of strings gives exactly the elements in order with the joiner between each adjacent pair, for any number of elements (none gives the empty string), empty elements, and any joiner, and changes neither the array, its elements nor the joiner. An array of strings holds, returns, appends and removes strings as values.",
  ["inputs", "histories"], "All string arrays and joiners, including slices and shared strings.",
  "One test joins a few literals.",
  ["include/strval.h", "include/array.h"],
  [("StringArray::join", "include/strval.h"), ("StringArray accessors", "include/strval.h")],
  ["join()"]),
P("C24", "Error numbers and error values keep their identity",
  "An error number built from any 16-bit set and 14-bit message number gives both back, is never zero, equals exactly the numbers built from the same pair, survives conversion to a plain integer and back, and tests as negative as documented; no error is zero. An error value keeps its number, default text and parameters through any copying and assigning, and they are shared safely and released with the last copy.",
  ["inputs", "histories"], "All set and message numbers; all histories of copying and assigning errors.",
  "err_test has four examples with small set numbers.",
  ["include/error.h"],
  [("bit layout of ErrNum", "include/error.h"), ("reference-counted body", "include/error.h Error")],
  ["set()", "msg()", "operator int32_t"]),
P("C25", "Formatting substitutes each argument exactly where the format says",
  "Formatting a template with an argument list copies all text outside conversions unchanged, replaces each conversion by its argument (strings as themselves, other values as they print), in sequence or by explicit argument number, and renders a doubled percent sign as one. Field width, zero padding and precision are accepted without disturbing the text around them.",
  ["inputs"], "All templates of well-formed conversions with matching argument lists.",
  "No stable test formats anything beyond one sequence of conversions.",
  ["include/strformat.h", "include/variant.h"],
  [("StrVal::format", "include/strformat.h")],
  ["format()"]),
P("C26", "Latches exclude, conditions wake, and threads are joined exactly once",
  "At most one thread holds a latch at any time, trying to gain a latch held by another thread fails at once and waiting for it succeeds once it is released, and the holding test is true exactly in the holder. A thread waiting on a condition resumes after it is signalled (all of them after a broadcast) holding the latch, and a timed wait that is not signalled returns a timeout no earlier than asked. Every thread started runs its body once and can be joined, and joining any thread returns each finished thread exactly once.",
  ["schedules", "histories"], "All interleavings of threads contending for latches and conditions, and all orders of starting and joining.",
  "thread_test is not part of the test run.",
  ["include/lockfree.h", "include/condition.h", "src/condition.cpp", "include/thread.h", "src/thread.cpp"],
  [("Latch on an error-checking mutex", "include/lockfree.h"), ("Condition", "src/condition.cpp"), ("Thread list", "src/thread.cpp")],
  ["probe/holding", "wait result", "join results"]),
P("C27", "Copies and slices share storage, and reading allocates nothing",
  "Copying, assigning and passing by value a string, array, map or variant, taking a slice of a string or array, and joining adjacent slices of the same storage allocate no memory, however large the value. Nor does reading them: comparing, searching, indexing, iterating, looking up, testing all or any of their elements, or fetching what a variant holds. A change to a value that shares its storage copies that value once, in proportion to the value itself and what is added to it, not to the storage it is a slice of; a change of elements or removal from an array or map that shares with none allocates nothing, a new map entry allocates only that entry, and appending one by one to a string or array that shares with none allocates a number of times that grows with the logarithm of its length.",
  ["histories", "inputs"], "All histories of copying, slicing, reading and changing strings, arrays, maps and variants of any size.",
  "The tests check values only; a copy that is made needlessly gives the same values, so no test can fail for it.",
  ["include/strval.h", "include/array.h", "include/cowmap.h", "include/variant.h", "include/refcount.h"],
  [("Unshare", "include/array.h ArrayR::Unshare, include/strval.h StrValI::Unshare, include/cowmap.h CowMap::Unshare"), ("slices", "include/array.h ArrayR::slice, include/strval.h StrValI::substr"), ("growth", "include/array.h ArrayBody::resize")],
  ["number and size of allocations"],
  [("ref_count", "how many values share a body", "include/refcount.h RefCounted")]),
P("C28", "Scanning a string takes time in proportion to its length",
  "Searching a string for a character, a string, or any character in or not in a set, forwards or backwards, taking its characters by index in increasing or decreasing order (or in steps, or in neighbouring pairs) from a string variable, comparing and measuring it, all take time at most proportional to the length of the string, whether it is ASCII or holds characters of several bytes, and whether it is a whole string or a slice of a longer one.",
  ["inputs"], "All scans in either direction over strings of any length and repertoire.",
  "The tests use short strings and do not measure time.",
  ["include/strval.h"],
  [("bookmark", "include/strval.h StrBodyI::nthChar"), ("searches", "include/strval.h StrValI::find and the others")],
  ["time taken"],
  [("mark", "the character and byte position that was last used", "include/strval.h StrValI")]),
P("C29", "Pegular expressions and PEG parsers without captures allocate no memory",
  "Matching or searching with a Pegular expression, and parsing a text with a PEG grammar whose context captures nothing, allocate no memory, whatever the expression, the grammar and the text, whether they succeed or fail.",
  ["inputs"], "All expressions, grammars and texts, all kinds of source.",
  "The tests check what is matched; memory that is allocated and released again cannot make a test fail.",
  ["include/pegexp.h", "include/peg.h"],
  [("match_sequence and the state it copies", "include/pegexp.h Pegexp"), ("contexts on the stack", "include/peg.h PegPegexp::match_extended")],
  ["number of allocations during match_here(), match() and parse()"]),
P("C30", "Regular expression matching uses memory limited by the expression alone",
  "The most memory in use at any moment while a compiled regular expression is matched, or searched for, depends on the expression and not on how long the text is: over a text many times as long it is the same, once all states of the expression have been met.",
  ["inputs"], "All expressions and texts of any length.",
  "The tests use short texts, and do not measure memory.",
  ["rx/rxmatch.cpp", "rx/strregex.h"],
  [("threads of each step, without duplicates", "rx/rxmatch.cpp RxMatch::addthread"), ("shared captures", "rx/rxmatch.cpp RxCaptures")],
  ["peak memory in use during matchAfter() and matchAt()"],
  [("visited", "the places that have a thread at the next offset", "rx/rxmatch.cpp RxMatch")]),
]
