"""What DESIGN.md says about each property: generator, oracle, bounds, cost (quick / thorough)."""
NOTES = {
'C01': 'Histories over a pool of three vector<int> (mean 30-40 operations, sizes over several reallocations, and a few of thousands of elements) run in step with std::vector; size, emptiness, capacity, every accessor and the iteration order are compared after every operation. Heap fill patterns make elements that were not value-initialised visible. Cost: 5 s / minutes.',
'C02': 'Elements are self-checking objects (canary, identity, owned heap block, live count), nested vectors and a recording allocator that compares each release with its allocation. A malloc balance per case finds leaks, ASan the rest; growth counts allocations and copies for up to 10^5 appends against a bound any factor of 1.25 or more meets.',
'C03': 'As C01 and C02 for valarray, also with self-checking elements, construction by size, and sin applied to arrays of related values (negated, repeated) whose argument must stay as it was.',
'C04': 'Histories over three strings in step with std::string, with contents that contain NUL and high bytes, ranges taken from exactly sized heap blocks, appending a string to itself, and writes through [] and iterators; the NUL behind the last character is checked each time.',
'C05': 'Pairs and triples made related on purpose (equal, prefix, one byte changed at any place, high bytes, NULs inside), against memcmp order; the laws of a strict total order on triples; equal content built in different ways must compare equal.',
'C06': 'Histories in step with std::map over integer and string keys, key ranges both narrow (repeated keys) and wide; maps of thousands of keys in ascending, descending, zigzag, random and nearly sorted order, with full iteration compared.',
'C07': 'Copy and assign histories with owning values (block balance, independence); references and iterators kept while other keys are inserted; counting comparators judge each lookup against a generous multiple of log2 n for seven insertion orders; iteration steps are timed by comparisons and node visits only.',
'C08': 'A model of which pointer owns which object; deleters of every kind (empty, stateful, move-only, reference, function pointer, re-entrant) record calls, and objects check themselves. After each operation all getters and comparisons are compared with the model. Constructors from lvalue and rvalue deleters, final empty deleters, closures, array conversions, a custom pointer type, and two pointers with reference deleters have parts of their own.',
'C09': 'Model histories over optionals of owning, trivial, over-aligned and move-only types, with self-assignment, swap of mixed states, value_or on lvalues and rvalues, and every comparison form. Recorders of argument forwarding show that every emplacing form hands each argument on exactly once with its value category; values that are false in a boolean context are not taken for absence. Over all pairs of fourteen types, what may be constructed, converted and assigned is compared with std::optional; so are types that an optional itself converts to, and the values made from other types.',
'C10': 'Model histories over variants of 2, 4, 7 and 16 alternatives (so every row of the dispatch tables is reached), with owning alternatives and every conversion; visits of one to five variants check the argument order and the single call. The same recorder of arguments and value categories as in C09; visits of four and five variants cover the wide dispatch tables.',
'C11': 'Model histories over anys of nine types including owning, over-aligned and array-like ones; casts to every type after every operation, also to types whose names are similar. The recorder of C09 again; forty types tell every type apart from every other.',
'C12': 'Model histories over tuples of seven mixed elements (empty classes, owning, over-aligned), references and ties; comparisons against arrays of values; tuple_cat of many arities and up to sixteen elements. Every element position of tuples of up to sixteen elements is constructed, read, assigned, swapped and compared on its own; empty and final classes, repeated ones too; move-only elements; tuple_cat keeps value categories.',
'C13': 'Random programs: one to three translation units, random subsets and orders of 41 headers and of the standard library\'s, headers repeated, objects passed between units, as C++11 to C++20 (with and without GNU extensions), at -O0 to -O2, also without exceptions or built-in functions, the bodies checking every feature used; each header alone in one and in two units. 373 programs in the quick check (25 to 70 s), about 5400 in the thorough one.',
'C14': 'All int and unsigned values (thorough; a random phase of 2^23 in the quick check, all digit-count boundaries), 64-bit values around powers of ten and two and at random, against an own digit loop and snprintf.',
'C15': 'Every float (thorough: 2^32; quick: a stride plus all exponents) against std::to_chars of libstdc++ for length and against glibc\'s exact printf for closeness, and read back by strtof.',
'C16': 'Doubles drawn from powers of two and ten and their neighbours, short decimals, integers, subnormals and random bits, every exponent with edge mantissas; oracle as in C15.',
'C17': 'Decimals of all lengths and spellings, next to values and to midpoints of neighbouring values, exact ties, dyadic fractions, and the complete set of 15 to 17 (7 to 9) digit decimals within 20 units of every power of two, its neighbours and midpoints; oracle: glibc\'s correctly rounded strtod and strtof.',
'C18': 'All strings up to length six over a number alphabet, all two-byte strings, mutated numbers, very long digits and exponents, arbitrary bytes with NULs, in exactly sized heap blocks under ASan; a result that is a number must be what a grammar-based reference reads.',
'C19': 'to_string followed by stof / stod over all floats (thorough) and structured doubles; bit equality, signed zeros and subnormals included.',
'C20': 'Histories over several streams with a std::string as model: chained insertions, own content, clears and moves.',
'C21': 'All floats for the classification functions (complete in the quick check), pairs for copysign, structured doubles; oracle: the bits.',
'C22': 'All floats (thorough) and doubles around every integer boundary and power of two; oracle: glibc floor and ceil, compared as values.',
'C23': 'Pairs and triples from a pool of special, equal and adjacent values, and objects that compare equal but are distinguishable; identity of the returned reference is checked.',
'C24': 'Strided or complete enumeration of floats against glibc in double; bounds measured over all floats with the stated margins.',
'C25': 'As C24 over |x| <= 8192, neighbourhoods of multiples of pi/2 complete; range check up to 2^30.',
'C26': 'As C24; pow over pairs with special bases and exponents (odd integers to 2^24, fractions that miss an integer by little) against rules and the error model of its algorithm.',
'C27': 'As C24 with both signs of each argument; the symmetry is compared bit for bit.',
'C28': 'Every float, edges and random values of every integer type, and the constants against <limits>.',
'C29': 'Ranges inside larger guarded blocks over raw memory, vectors, lists and minimal forward iterators that trap outside the range; contents with many ties and values that are equal but distinguishable; also built as C++17 with the execution-policy overload.',
'C30': 'Pairs of values related by small changes of bits, bytes and halves, rotations and opposite signs; the next float and all one-bit changes of a block of 2^24 floats; pairs and optionals and variants after histories.',
'C31': 'Every length to 1023 at every alignment, random lengths to 70000, both widths, inputs at the very end of their blocks (ASan) and outputs guarded; oracle: an independent SipHash-2-4 checked against the published vectors.',
'C32': 'Programs of static checks of one fraction each: random, common factors, Fibonacci-like chains for the gcd, extremes; oracle: Python\'s fractions.',
'C33': 'Twenty-four rounds of generated classes (every special member user-provided, deleted, defaulted, of each access; bases; virtual; final) and types built from them, plus a grid of every trait over every fixed type and modifier, against <type_traits>; 90,000 rows in four seconds.',
'C34': 'All sizes to 300 at all alignments, random larger ones, sizes beyond 2 and 4 GB over repeatedly mapped pages, objects of many types.',
'C35': 'Generated programs of static checks: every operation of the sequences header over random sequences of every integer type, lengths 0 to 64 (make_integer_sequence to 2000), values over the full range where sums fit, as C++11 to C++20; oracle: Python.',
'C36': 'The threads library is compiled with thread instrumentation and runs on harness/simthread.h (below). Single-threaded histories over extreme values against int arithmetic; programs for two to four threads whose history of calls and returns must have a linearization; values that say who stored them, with payloads whose accesses must be ordered; counting. Built with and without NDEBUG.',
'C37': 'Same scheduler. Sets of up to three mutexes taken in order, with data whose accesses must be ordered; signals: histories of raises and waits (waits with every timeout, on a clock with arbitrary phase) must be linearizable as a flag; single waits are timed exactly; one-shot use terminates the signal as soon as the wait returns; rings of threads take turns.',
'C38': 'Same scheduler. Both ends in one thread against a deque, timed; a producer, a consumer and an observer whose history must be that of a bounded FIFO; wake-up latency on the simulated clock; pipelines of queues. With real threads: streams with payload checks, and the recurrence of the queue\'s bytes after a round, failing which 2^32 elements are passed through it (two minutes).',
'C39': 'Same scheduler. Random trees of threads that create, join and destroy each other in different orders (a handle used twice, a thread never released or a block never freed is a failure), storage histories over recreated indices and all 1024 of them, waits under interruption, refusal of the system to create threads. With real threads: reuse of handles, stacks that are really used, names, storage, timers under a storm of signals; nanostl::thread.',
'C40': 'Model histories over three expecteds of owning, trivial and over-aligned values and errors, with every way to make, assign, convert, swap, read and compare them, and over expected<void, E>; counts of live objects after every operation. Move-only types, explicit conversions, the recorder of arguments of C09, NaN contents, error codes and exceptions as errors, and unexpected_type by itself have parts of their own. Accepted constructions, conversions and assignments are compared with std::expected (C++23) over all pairs of fourteen types and two error types, and so are types that an expected itself converts to, and what is made from values and errors of other types.',
'C41': 'Histories over cout and two further streams in step with a list of texts; standard output is a memory file whose new bytes are compared after flushes and at the end, with stdio output in between. Texts of integers come from printf, those of floating-point numbers from to_string (judged by C15 and C16); C strings lie in blocks released right after the insertion.',
'C42': 'Random and exhaustive texts over a number alphabet; digits of every length in every spelling, with leading and trailing zeros and something behind; the exact decimals (up to 1100 digits) of values and midpoints, whole, cut, continued and off by one; and for every power of ten and 15 to 19 digits (7 to 11 and 15 to 19 for floats) the decimals closest to a midpoint or value, found with continued fractions (harness/hardcases.h), which need the slowest path. Texts lie in blocks of exactly their size.',
}
