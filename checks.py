CE = ["src/char_encoding.cpp"]
LIB = ["src/char_encoding.cpp", "src/variant.cpp"]
NOT_APPLICABLE = {}
CHECKS = {
 "C03": dict(driver="c03.cpp", repo=CE, quick=dict(cases=5000000, seconds=60), thorough=dict(cases=60000000, seconds=600), fuzz=300,
   technique="property-based testing: random values and byte strings against an independent UTF-8 codec; libFuzzer in the thorough tier",
   note="Exploration. The quick tier covers every block of Unicode values many times over; AddressSanitizer on exact-size buffers. Trusts the reference codec in harness/refutf8.h."),
 "C04": dict(driver="c04.cpp", repo=CE, quick=dict(cases=1500000, seconds=60), thorough=dict(cases=60000000, seconds=300), fuzz=120,
   technique="property-based testing: blocks and sequences of scalar values against independent UTF-16 arithmetic; libFuzzer in the thorough tier",
   note="Exploration; the quick tier draws each of the 17,408 value blocks some 40 times. Lone surrogates are outside the property: the library asserts on them."),
 "C05": dict(driver="c05.cpp", repo=CE, quick=dict(cases=1200000, seconds=60), thorough=dict(cases=40000000, seconds=500), fuzz=200,
   technique="property-based testing: histories of queries against tables cross-checked with Java's Unicode data; libFuzzer in the thorough tier",
   note="Exploration; trusts harness/c05_ref.h, whose values agree with Java 17 (Unicode 13) except U+03F2, kept at its Unicode 3 value, and digit characters that Unicode classes as letters or other numbers."),
}
def _add(pid, driver, repo, qc, tc, technique, note, fuzz=200, tsec=500, size=20, tsize=40, **kw):
    CHECKS[pid] = dict(driver=driver, repo=repo, quick=dict(cases=qc, seconds=100, size=size), thorough=dict(cases=tc, seconds=tsec, size=tsize),
                       fuzz=fuzz, technique=technique, note=note, **kw)
PBT = "property-based testing: "
FZ = "; libFuzzer in the thorough tier"
_add("C09", "c09.cpp", [], 900000, 30000000, PBT + "histories over a pool of arrays against std::vector models, with lifetime-tracking elements" + FZ,
     "Exploration under AddressSanitizer. References returned by elem_mut/elem_ref are not used after another operation, as the header requires.", size=24, tsize=60)
_add("C10", "c10.cpp", [], 2500000, 60000000, PBT + "searches, comparisons and functional operations against their definitions" + FZ,
     "Exploration under AddressSanitizer; slices of shared and of exactly-sized storage.")
_add("C01", "c01.cpp", CE, 450000, 15000000, PBT + "histories over a pool of strings against vectors of characters" + FZ,
     "Exploration under AddressSanitizer with exact-size source buffers. Illegal bytes are stray continuation bytes only; StrRawBinary, marked unfinished in the header, is not covered.", size=20, tsize=60)
_add("C02", "c02.cpp", CE, 1200000, 40000000, PBT + "searches, slices and comparisons against their definitions on vectors of characters" + FZ,
     "Exploration under AddressSanitizer; subjects and arguments are slices of exact-size storage. Positions below -1 are outside the property.")
_add("C06", "c06.cpp", CE, 500000, 20000000, PBT + "histories of conversions and transformations with generated functions over a pool of strings, against models" + FZ,
     "Exploration under AddressSanitizer; the case maps are those of harness/c05_ref.h.", size=12, tsize=40)
_add("C07", "c07.cpp", LIB, 250000, 12000000, PBT + "generated values rendered in every form, read back by a strict JSON parser and compared" + FZ,
     "Exploration. Strings hold Unicode scalar values only: for surrogates and values above U+10FFFF there is no JSON, and the library asserts.")
_add("C08", "c08.cpp", CE, 2500000, 80000000, PBT + "spelled numbers in every radix, mutated, against a reference conversion in 128-bit arithmetic" + FZ,
     "Exploration. Radix 1 is outside the property. How much of an out-of-range number was scanned is only bounded.")
_add("C23", "c23.cpp", CE, 300000, 12000000, PBT + "histories over pools of string arrays and strings that share storage, against vectors of vectors of characters" + FZ,
     "Exploration under AddressSanitizer.", size=16, tsize=50)
_add("C22", "c22.cpp", CE, 2000000, 60000000, PBT + "histories of moves in every spelling, over legal and illegal UTF-8, against character positions" + FZ,
     "Exploration under AddressSanitizer; the text of a fully guarded pointer starts at the start of its allocation, so that reading before it is seen. A pointer that is guarded only at the NUL is not asked to go before its start.")
_add("C24", "c24.cpp", [], 700000, 25000000, PBT + "every field of error numbers, and histories of error values against a model, with every allocation accounted for" + FZ,
     "Exploration under AddressSanitizer, counting live allocations. Text and parameters belong to the caller, as the header has it.", cflags=["-DPBT_ALLOC_HOOKS"], size=16, tsize=50)
_add("C11", "c11.cpp", CE, 300000, 12000000, PBT + "histories over a pool of maps against std::map, with lifetime-tracking keys and values" + FZ,
     "Exploration under AddressSanitizer. An iteration is expected to go on undisturbed when it is over a copy, which is what shares the storage.", size=16, tsize=50)
_add("C12", "c12.cpp", LIB, 200000, 8000000, PBT + "histories over a pool of variants of every type against a model; refusals observed in a child process" + FZ,
     "Exploration under AddressSanitizer. Strings that spell more than 32 bits may be refused as a long, which the source documents.", size=14, tsize=40)
_add("C25", "c25.cpp", LIB, 500000, 20000000, PBT + "templates generated in parts together with what each part must become" + FZ,
     "Exploration. Conversions take an argument of their own kind (%s a string, %d %f %g any other), and are complete; a template numbers all its arguments (1 to 9) or none.")
_add("C26", "c26.cpp", ["src/thread.cpp", "src/condition.cpp", "src/lockfree.cpp"], 12000, 400000, PBT + "histories of latch, condition and thread operations run by several threads, judged by ownership marks, tokens and counts, under ThreadSanitizer",
     "Exploration of schedules as the machine provides them. A wait that should end is given 30 s. Not covered: the Windows branches, and creating the very first latch of a process in two threads at once.", fuzz=0, san="tsan", workers=6, size=12, tsize=24)
_add("C15", "c15.cpp", CE, 1500000, 20000000, PBT + "expression trees rendered as text and matched against text sampled from them, judged by direct evaluation of the tree" + FZ,
     "Exploration under AddressSanitizer with exact-size buffers. Expressions are well formed, with ASCII text and \\u escapes; an empty alternate is the last of its group; nothing is said of {n,m} and `, which the header calls unimplemented.", size=14, tsize=30)
_add("C16", "c16.cpp", LIB, 1200000, 25000000, PBT + "histories of sources against counted positions; labelled expression trees matched and searched, their captures compared with those of direct evaluation" + FZ,
     "Exploration under AddressSanitizer with exact-size buffers. An empty capture inside a repetition may be made once or twice, or not at all.", size=14, tsize=30)
_add("C17", "c17.cpp", LIB, 300000, 15000000, PBT + "generated grammars, with names that begin alike and rules that call themselves, parsing texts sampled from them, against direct evaluation" + FZ,
     "Exploration under AddressSanitizer with exact-size buffers; both the default context and the one that builds trees. Cases that take over 20,000 evaluation steps are set aside.", size=10, tsize=20)
_add("C18", "c18.cpp", LIB, 250000, 9000000, PBT + "generated grammars that capture, parsing texts sampled from them; the tree and the failures are compared with those of direct evaluation" + FZ,
     "Exploration under AddressSanitizer. As the code has it, an empty text is not captured, and the atoms reported as failing are plain characters and classes outside look-ahead.", size=10, tsize=20)
RX = LIB + ["rx/rxcompile.cpp", "rx/rxmatch.cpp", "rx/rxdump.cpp"]
_add("C19", "c19.cpp", RX, 80000, 8000000, PBT + "expression trees rendered in every spelling, searched for in texts sampled from them, judged by evaluating the tree over sets of positions; time measured on long texts" + FZ,
     "Exploration under AddressSanitizer. Time is required to grow less than 200-fold when the text grows 32-fold, for expressions without look-ahead.", size=14, tsize=30)
_add("C20", "c20.cpp", RX, 250000, 20000000, PBT + "texts made of pieces of expressions, rendered expressions and mutations of them, under generated feature masks, against a reference parser; what compiles is run" + FZ,
     "Exploration under AddressSanitizer, with programs copied to exact-size buffers. Left open: {} {,} and counts that are not numbers, NUL in a class, more than 8 groups deep, # without a blank before it, all group types rejected, and what \\\\p{} matches.", size=14, tsize=30)
_add("C21", "c21.cpp", RX, 100000, 12000000, PBT + "expressions with named groups matched against sampled texts; the captures must be those of some derivation, and copies keep them through histories of copying and changing" + FZ,
     "Exploration under AddressSanitizer. A group that matched nothing at the start of the text reports the same as one that took no part.", size=12, tsize=26)
_add("C13", "c13.cpp", RX, 200000, 3000000, PBT + "the histories of the other properties' generators, each replayed with every allocation counted" + FZ,
     "Exploration under AddressSanitizer; a history must leave no more allocations live than before it. Histories on which another property fails are set aside.", cflags=["-DPBT_ALLOC_HOOKS"], extra=["c13a.cpp", "c13b.cpp", "c13c.cpp", "c13d.cpp", "c13e.cpp"], size=14, tsize=36)
_add("C14", "c14.cpp", RX, 24000, 500000, PBT + "the histories of the other properties, run by several threads that start from copies of the same values, judged by each thread's own model and by ThreadSanitizer",
     "Exploration of schedules as the machine provides them. Also run: matching with one compiled expression in several threads, which the header allows, and character functions.", fuzz=0, san="tsan", extra=["c14a.cpp", "c14b.cpp", "c14c.cpp"], workers=4, size=14, tsize=30)
_add("C27", "c27.cpp", LIB, 150000, 15000000, PBT + "histories of values that share storage, with the allocations of every operation counted and bounded by what it may copy" + FZ,
     "Exploration under AddressSanitizer, counting allocations. The bounds leave room for a different growth factor.", cflags=["-DPBT_ALLOC_HOOKS"], size=16, tsize=40)
_add("C28", "c28.cpp", CE, 16000, 300000, PBT + "generated scans of generated texts in both directions, each timed over a text and over one 16 times as long",
     "Exploration. A scan may take 80 times as long over 16 times the text before it is reported; a quadratic one takes some 256 times as long. Appending to a string takes time in proportion to its length, so building one character by character is not covered.", fuzz=0, size=12, tsize=12)
_add("C29", "c29.cpp", LIB, 400000, 15000000, PBT + "the generated expressions and grammars of C15 and C17, with the allocations of every match and parse counted" + FZ,
     "Exploration under AddressSanitizer, counting allocations. Constructing a parser sorts its rules, with the C library's qsort, and is not covered.", cflags=["-DPBT_ALLOC_HOOKS"], size=14, tsize=30)
_add("C30", "c30.cpp", RX, 8000, 300000, PBT + "generated expressions over long texts sampled from them, with the most memory in use measured for a text and for one 6 times as long" + FZ,
     "Exploration under AddressSanitizer, counting memory. Repetition counts are at most 7, so that all states of the counters are met within the shorter text.", cflags=["-DPBT_ALLOC_HOOKS"], asan="malloc_context_size=2", size=14, tsize=20)
