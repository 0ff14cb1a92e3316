VEC = 'include/nanovector.h'

prop('C01', 'vector behaves as a sequence',
     'After any history of vector operations (append, pop, resize up or down including to zero, element-wise and '
     'range assignment, copying, swapping, erasing, clearing, writing through any accessor) its size, emptiness, '
     'element values and iteration order are exactly those of the abstract sequence, with elements added by resize '
     'value-initialised and capacity never below size. Every accessor (at, [], data, begin/end) names the same '
     'element, erase returns the position after the erased element, and appending one of the vector\'s own elements '
     'appends its value even when storage is reallocated.',
     ['histories', 'inputs'],
     'all finite operation histories over several interacting vectors, all element values, sizes across reallocation boundaries',
     'The tests push three elements and check a few fixed calls; resize to zero, growth after shrinking, stale '
     'capacity, erase results, self-aliasing and interactions between copies are never reached.',
     [VEC, 'include/nanoallocator.h'],
     [('growth and value-initialisation', VEC + ': vector::resize'), ('shift on erase', VEC + ': vector::erase'),
      ('append', VEC + ': vector::push_back'), ('copy by assign', VEC + ': vector::assign, operator=')],
     harness=[('c01_vector.cc', 'asan')],
     rule='A case is a history of random operations on a pool of three vectors, compared with std::vector after '
          'every operation. Non-trivial: at least three operations, the storage grew, and the vector also shrank or '
          'was copied while non-empty. Distinct: different choice sequences.',
     technique='model-based (stateful) property testing against std::vector, with shrinking, under ASan',
     note='Random histories (mean length 30-40, some thousands of elements) agree with std::vector; nothing is proved '
          'beyond the explored histories.')

prop('C02', 'vector owns its elements and storage',
     'A vector of an element type that owns resources never uses an element that is not alive, keeps copies (also '
     'nested ones) fully independent of each other, and once it is destroyed every element and every block is '
     'released exactly once and given back to its allocator with the size it was obtained with. Appending n elements '
     'one by one reallocates only O(log n) times and copies only O(n) elements.',
     ['histories', 'inputs'],
     'all operation histories with owning element types, nested vectors and custom allocators; all numbers of appends',
     'The tests use int and float elements only, so a leak, a double free, a shared buffer after a copy, or '
     'quadratic growth passes them unnoticed.',
     [VEC, 'include/nanoallocator.h'],
     [('storage release', VEC + ': ~vector, resize'), ('deep copies', VEC + ': vector(const vector&), operator='),
      ('geometric growth', VEC + ': recommended_size'), ('allocation', 'include/nanoallocator.h: allocate, deallocate')],
     harness=[('c02_vector_lifetime.cc', 'asan')],
     rule='A case is an operation history over vectors of a heap-owning, self-checking element type (also nested, '
          'also with a recording allocator), or a number of appends. Non-trivial: as for C01 (histories), a deep copy '
          'was made and changed (nested), or at least 200 appends (growth).',
     technique='model-based property testing with instrumented elements and allocator, heap accounting, ASan',
     note='Lifetimes are checked by self-checking elements, a heap-block balance per case, and AddressSanitizer; '
          'growth bounds leave room for any growth factor of 1.25 or more.')

VAL = 'include/nanovalarray.h'
prop('C03', 'valarray behaves as an owned sequence with elementwise math',
     'After any history of valarray operations (construction with a size, resize, assignment, copying, swapping, '
     'erasing, clearing, writing) its size and element values are those of the abstract sequence, elements added by '
     'construction or resize are value-initialised, copies are independent and all storage is released. The sine of a '
     'valarray has the same length and holds, at each position, the sine of that element, leaving its argument '
     'unchanged.',
     ['histories', 'inputs'],
     'all operation histories over several valarrays, all sizes and element values',
     'The single valarray test fills ten elements; resizing, erasing, copying and empty arrays are untested.',
     [VAL, 'include/nanoallocator.h'],
     [('growth and value-initialisation', VAL + ': valarray::resize'), ('erase', VAL + ': valarray::erase'),
      ('elementwise sine', VAL + ': sin(const valarray&)')],
     harness=[('c03_valarray.cc', 'asan')],
     rule='A case is an operation history over three valarrays compared with std::vector (non-trivial as for C01), a '
          'construction size of two or more, or an array of three or more values whose sine is taken.',
     technique='model-based (stateful) property testing against std::vector, under ASan',
     note='Histories, sizes and values are sampled; sine accuracy itself is decided by C25.')

STR = 'include/nanostring.h'
prop('C04', 'string holds exactly its characters, NUL terminated',
     'After any history of string operations (construction from C strings, ranges and counts, copying, assignment, '
     'appending strings and C strings, concatenation, erasing, clearing, writing characters) size, length, emptiness '
     'and every character are those of the abstract character sequence, and c_str() is always followed by a NUL. '
     'Strings never share storage, so that changing a copy leaves the original alone, and a string can be appended to '
     'itself. Embedded NUL characters and bytes above 127 are ordinary content.',
     ['histories', 'inputs'],
     'all operation histories over several interacting strings, all byte contents including NUL, all lengths',
     'The tests concatenate two short literals; empty strings, erase, self-append, ranges, long strings, embedded '
     'NULs and independence of copies are never exercised.',
     [STR, 'include/nanovector.h'],
     [('construction', STR + ': basic_string::basic_string'), ('append', STR + ': basic_string::operator+='),
      ('size and termination', STR + ': size, clear, c_str')],
     harness=[('c04_string.cc', 'asan')],
     rule='A case is a history on a pool of three strings compared with std::string after every operation '
          '(non-trivial: at least three operations, a string grew, and one shrank or was copied and changed), or a '
          'construction from empty, null or partial input (non-trivial: part of a string of two or more characters).',
     technique='model-based (stateful) property testing against std::string, with shrinking, under ASan',
     note='Histories are sampled; range arguments come from exactly sized heap blocks so over-reads are seen.')

prop('C05', 'string comparison is byte-lexicographic and consistent',
     'compare orders strings lexicographically by unsigned byte value with a proper prefix first, embedded NULs '
     'included; it is zero exactly for equal contents, and ==, !=, < and > always agree with it, for string operands '
     'and for C strings. Together they form a strict total order that depends on content only, not on how a string '
     'was built.',
     ['inputs'],
     'all pairs and triples of byte strings, including equal, prefix, one-byte-different, high-byte and embedded-NUL pairs',
     'The tests compare a handful of ASCII literals; high bytes, embedded NULs, prefixes and transitivity are out of '
     'their reach, and map<string, T> relies on all of them.',
     [STR],
     [('comparison', STR + ': basic_string::compare, compare_'), ('operators', STR + ': operator==, !=, <, >')],
     harness=[('c05_strcmp.cc', 'asan')],
     rule='A case compares a string with related strings (equal, prefix, extended, one byte changed, unrelated). '
          'Non-trivial: both non-empty with a common first byte (built_differently: more than two characters).',
     technique='property testing against a reference order (unsigned bytes), algebraic laws, under ASan',
     note='Pairs are generated to be close to each other; nothing is proved for lengths never generated (above about 80).')

MAP = 'include/nanomap.h'
prop('C06', 'map finds what was inserted, in key order',
     'After any history of insert, operator[] and assignments through it, as seen by find, upper_bound and '
     'iteration, a map contains exactly the keys inserted so far with the value last stored under each. Absent keys '
     'are never found, operator[] on an absent key yields a value-initialised element, upper_bound is the first element '
     'with a greater key, and iteration visits every element once in ascending key order.',
     ['histories', 'inputs'],
     'all operation histories, all key sets and insertion orders, integer and string keys, maps of thousands of elements',
     'The tests insert two or three keys; tree rebalancing, ordering, duplicate insertion and iteration only matter on '
     'larger and differently ordered key sets.',
     [MAP],
     [('tree search', MAP + ': map::find, upper_bound'), ('insertion and balancing', MAP + ': insert, operator[]'),
      ('in-order stepping', MAP + ': iterator increment')],
     harness=[('c06_map.cc', 'asan')],
     rule='A case is a history over maps compared with std::map after every operation. Non-trivial: at least three '
          'elements at once and a lookup that found a key (large: more than a hundred keys).',
     technique='model-based (stateful) property testing against std::map, with shrinking, under ASan',
     note='Histories are sampled; the large cases reach several thousand keys in ascending, descending, zigzag and '
          'random insertion orders.')

prop('C07', 'map owns its elements, copies deeply, and stays balanced',
     'Copying or assigning a map gives an independent map: no later operation on one changes or invalidates the other, '
     'and every node and element is released exactly once when its map goes away or is overwritten. References and '
     'iterators to elements stay valid while other keys are inserted. Insertion, lookup, upper_bound and a full '
     'iteration step need only O(log n) key comparisons whatever the insertion order.',
     ['histories', 'inputs'],
     'all copy, assignment and insertion histories with owning value types; all insertion orders up to thousands of keys',
     'The tests never copy a map, use only int values, and are far too small to notice a degenerate tree, a leak or a '
     'double free.',
     [MAP, 'include/nanoallocator.h'],
     [('deep copy', MAP + ': map(const map&), operator='), ('node release', MAP + ': ~map'),
      ('balancing', MAP + ': insert rebalancing')],
     harness=[('c07_map_own.cc', 'asan')],
     rule='A case is a copy/insert history with heap-owning values (non-trivial: a copy of a non-empty map was changed), '
          'a set of retained references while other keys are inserted (non-trivial: some were retained), a comparison '
          'count for one insertion order, or a history of owning values (non-trivial: more than three keys and an overwrite).',
     technique='model-based property testing with instrumented values and comparators, heap accounting, ASan',
     note='Comparison counts are judged against a generous multiple of log2(n), so any balanced tree passes.')

UP = 'include/nanomemory.h'
prop('C08', 'unique_ptr owns one object and deletes it exactly once',
     'At every moment each object handed to a unique_ptr is owned by exactly one of them, and its deleter is called '
     'exactly once, with that pointer, when the owner is destroyed, reset or assigned over, and never after release. '
     'Moving, swapping and converting (to compatible types only, never copying) transfer both object and deleter and leave the source empty; get, bool, *, ->, [] '
     'and comparisons always describe the currently owned object. Arrays destroy all their elements and reset installs '
     'the new pointer before the old object is destroyed.',
     ['histories', 'inputs'],
     'all histories of construction, move, swap, reset, release and comparison over several pointers; stateless, '
     'stateful, move-only, reference and function-pointer deleters; single objects and arrays',
     'The test makes one pointer and looks at it; double deletes, leaks and deleters left behind need longer histories '
     'and instrumented deleters.',
     [UP],
     [('deletion and transfer', UP + ': unique_ptr::reset, release, operator=, ~unique_ptr'),
      ('array form', UP + ': unique_ptr<T[]>'), ('comparisons', UP + ': operator==, <')],
     harness=[('c08_unique_ptr.cc', 'asan')],
     rule='A case is a history over a pool of pointers with a model of who owns what. Non-trivial: at least three '
          'operations, an ownership transfer and a deletion (converting: a move happened; reentrant: a chain of more '
          'than three).',
     technique='model-based (stateful) property testing with recording deleters and self-checking objects, under ASan',
     note='Histories are sampled; deleters record every call and are compared with the model after every operation.')

OPT = 'include/nonstd/optional.hpp'
prop('C09', 'optional holds nothing or exactly the value last stored',
     'After any history of construction, assignment of values, of other optionals and of nullopt, emplace, reset, swap '
     'and moves, an optional is engaged exactly when the model says, holds the value last stored, and every contained '
     'value is constructed and destroyed exactly once. All accessors, value_or and all comparison operators (between '
     'optionals, with nullopt and with values) agree with that state, copies are independent, values are properly '
     'aligned, and what an optional may be built from, converted from and assigned is what the standard optional accepts (types that can be copied or moved and assigned).',
     ['histories', 'inputs'],
     'all operation histories over several optionals of owning, trivial, over-aligned and move-only types',
     'The test assigns one double. Transitions between empty and engaged with owning types, self-assignment and '
     'comparisons of mixed states are never run.',
     [OPT, 'include/nanooptional.h'],
     [('engagement', OPT + ': optional::operator=, reset, emplace, swap'), ('storage', OPT + ': detail::storage_t'),
      ('comparisons', OPT + ': operator==, <, and the nullopt and value forms')],
     harness=[('c09_optional.cc', 'asan'), ('c09_optional.cc', 'asan', ['-std=c++20', '-DPBT_SHARE=0.4']), ('c09_conversions.cc', 'asan', ['-std=c++20'])],
     rule='A case is a history over a pool of optionals compared with a model after every operation. Non-trivial: at '
          'least three operations, engaged more than once, and a move or swap; or one conversion (non-trivial: to be accepted).',
     technique='model-based (stateful) property testing with self-checking contents, under ASan',
     note='Compiled as C++11 and as C++20. Histories are sampled.')

VARI = 'include/nonstd/variant.hpp'
prop('C10', 'variant holds exactly one of its alternatives',
     'After any history of construction, assignment, emplace, copying, moving and swapping a variant holds the alternative '
     'and value the model says; index, holds_alternative, get, get_if, comparisons and visit all agree with that, for '
     'every position among up to sixteen alternatives. Each contained value is constructed and destroyed exactly once '
     'when alternatives change, copies are independent, and visit calls the visitor exactly once with the held '
     'alternatives in argument order.',
     ['histories', 'inputs'],
     'all operation histories over several variants; 2, 4, 7 and 16 alternatives of different sizes, alignments and ownership',
     'The test stores one double. Per-alternative dispatch tables, owning alternatives and mixed-alternative comparisons '
     'and swaps are untested.',
     [VARI, 'include/nanovariant.h'],
     [('alternative switching', VARI + ': variant::operator=, emplace, swap'),
      ('dispatch by index', VARI + ': detail::helper'), ('visitation', VARI + ': visit, detail::VisitorApplicator')],
     harness=[('c10_variant.cc', 'asan'), ('c10_variant.cc', 'asan', ['-std=c++20', '-DPBT_SHARE=0.4'])],
     rule='A case is a history over a pool of variants compared with a model after every operation (non-trivial: at '
          'least three operations, more than one change of alternative, and a move or swap), or a visit (non-trivial: '
          'two or more variants in different states).',
     technique='model-based (stateful) property testing with self-checking alternatives, under ASan',
     note='Compiled as C++11 and as C++20. Histories are sampled.')

ANY = 'include/nonstd/any.hpp'
prop('C11', 'any returns exactly what was stored, for exactly its type',
     'After any history of storing values of different types, copying, moving, swapping, emplacing and resetting, an any '
     'is empty or holds exactly the type and value last stored: has_value and type() say so, and any_cast by pointer '
     'succeeds for exactly that type and points at that value. Copies are independent, a moved-from any is empty, and '
     'every stored value is destroyed exactly once.',
     ['histories', 'inputs'],
     'all operation histories over several anys holding integers, owning, over-aligned and container types',
     'The test of any is disabled in the test suite, so nothing at all is exercised by the tests.',
     [ANY, 'include/nanoany.h'],
     [('type-erased ownership', ANY + ': any, any::holder, placeholder::clone'), ('typed access', ANY + ': any_cast')],
     harness=[('c11_any.cc', 'asan'), ('c11_any.cc', 'asan', ['-std=c++20', '-DPBT_SHARE=0.4'])],
     rule='A case is a history over a pool of anys compared with a model after every operation. Non-trivial: at least '
          'three operations, more than one stored type, and a copy of a non-empty any.',
     technique='model-based (stateful) property testing with self-checking contents, under ASan',
     note='any_cast to a reference type does not compile at this commit and is not claimed.')

TUP = 'include/tao/tuple/tuple.hpp'
prop('C12', 'tuple and pair hold their elements in place',
     'After any history of construction, copying, moving, swapping, element writes, assignment through tie and '
     'concatenation, get by index and by type return exactly the element stored at that position, also when some element '
     'types are empty classes, references, over-aligned or owning, and every owned element is destroyed exactly once. '
     'Comparisons are lexicographic and mutually consistent; make_tuple, tie, forward_as_tuple and tuple_cat preserve '
     'order, values and, for references, identity.',
     ['histories', 'inputs'],
     'all operation histories over several tuples and pairs; all element values; mixed element types of up to sixteen elements',
     'No test uses a tuple or compares a pair, so index arithmetic, empty-base layout and ordering are never executed.',
     [TUP, 'include/nanotuple.h', 'include/nanoutility.h', 'include/tao/seq/'],
     [('element storage', TUP + ': impl::tuple_value, impl::tuple_base'), ('comparison', TUP + ': impl::tuple_equal, tuple_less'),
      ('concatenation', TUP + ': impl::tuple_cat_helper, tuple_cat'), ('pair', 'include/nanoutility.h: pair, operator<')],
     harness=[('c12_tuple.cc', 'asan'), ('c12_tuple.cc', 'asan', ['-std=c++17', '-DPBT_SHARE=0.4'])],
     rule='A case is a history over a pool of seven-element tuples (non-trivial: at least three operations, a move or swap '
          'and a write), a comparison of nearby values (non-trivial: equal first elements), or one operation on tuples of '
          'references (non-trivial: one that exchanges or forwards).',
     technique='model-based (stateful) property testing against an array of element values, under ASan',
     note='Converting construction from another tuple type and reference_wrapper do not compile at this commit and are not claimed.')

SU = 'include/__nanostrutil.h'
BOTH = lambda f: [(f, 'fast'), (f, 'asan')]
prop('C14', 'to_string of integers is their exact decimal representation',
     'For every int, unsigned, int64_t and uint64_t value to_string gives the canonical decimal representation: an '
     'optional minus sign, no leading zeros, no other characters, and exactly that value, including zero and the lowest '
     'and highest values.',
     ['inputs'],
     'all 2^32 int and unsigned values (thorough: exhaustively); 64-bit values at edges, powers of ten and at random',
     'The tests print one or two integers; the lowest values and digit-count boundaries are where this breaks.',
     [STR],
     [('digit loops', STR + ': to_string(int), to_string(int64_t), to_string(uint64_t)')],
     harness=BOTH('c14_to_string_int.cc'),
     rule='A case is one value. Every point of the 32-bit sweeps counts; 64-bit values count above 99.',
     technique='property testing against a reference conversion; exhaustive sweep of 32-bit values in the thorough check',
     note='64-bit values are sampled.')

prop('C15', 'to_string(float) is the shortest and closest round-tripping decimal',
     'For every finite float to_string gives a decimal in the form [-]d[.ddd]E[-]x that a correct parser reads back as '
     'the same float, no shorter decimal does, and of those of that length it is the closest; zero keeps its sign. '
     'Infinities print as [-]Infinity and every NaN as NaN, and the fixed buffer is never exceeded.',
     ['inputs'],
     'all 2^32 float bit patterns (thorough: exhaustively)',
     'The tests print a few values; shortest printing has special cases at powers of two, subnormals, exponent limits '
     'and table boundaries which only a sweep meets.',
     [STR, SU, 'include/ryu/d2s_full_table.h'],
     [('shortest digits', SU + ': f2d'), ('formatting', SU + ': to_chars(floating_decimal_32), copy_special_str'),
      ('powers of five', 'include/ryu/d2s_full_table.h')],
     harness=BOTH('c15_to_string_float.cc'),
     rule='A case is one float. All points of the sweeps count; structured values count when they need two digits or more.',
     technique='differential sweep against std::to_chars (exhaustive in the thorough check) and exact-arithmetic minimality checks with glibc',
     note='quick samples 3 million bit patterns, one per stratum, plus everything within 16 ulp of a power of two.')

prop('C16', 'to_string(double) is the shortest and closest round-tripping decimal',
     'For every finite double to_string gives a decimal in the form [-]d[.ddd]E[-]x that a correct parser reads back as '
     'the same double, no shorter decimal does, and of those of that length it is the closest; zero keeps its sign. '
     'Infinities print as [-]Infinity and every NaN as NaN, and the fixed buffer is never exceeded.',
     ['inputs'],
     'double bit patterns over the whole range, powers of two and ten and their neighbours, integers, subnormals',
     'The tests print a few values; wrong table entries or carries affect only narrow exponent ranges.',
     [STR, SU, 'include/ryu/d2s_full_table.h'],
     [('shortest digits', SU + ': d2d, d2d_small_int'), ('formatting', SU + ': to_chars(floating_decimal_64)'),
      ('powers of five', 'include/ryu/d2s_full_table.h: DOUBLE_POW5_SPLIT, DOUBLE_POW5_INV_SPLIT')],
     harness=BOTH('c16_to_string_double.cc'),
     rule='A case is one double. All points of the sweeps count; structured values count when they need two digits or more.',
     technique='differential sweep against std::to_chars and exact-arithmetic minimality checks with glibc',
     note='The domain cannot be exhausted; strata cover every exponent many times (quick: about 2000 points per exponent).')

prop('C17', 'stof and stod round correctly',
     'For every decimal number of up to 9 (stof) or 17 (stod) significant digits and up to four exponent digits, however '
     'it is spelled (leading zeros, position of the point, e or E, signed exponent), the result is the representable '
     'value nearest to it, ties to even, with gradual underflow, signed zero and overflow to infinity. Numbers with '
     'more digits give that same value or NaN, never another number.',
     ['inputs'],
     'all decimal spellings: random digits at every exponent, decimals next to values and midpoints, exact ties, long spellings',
     'The tests parse a handful of literals; rounding errors live in ties, near-midpoints, subnormals and extreme exponents.',
     [STR, SU, 'include/ryu/d2s_full_table.h'],
     [('rounding', SU + ': s2f_n, s2d_n'), ('status to NaN', STR + ': stof, stod')],
     harness=BOTH('c17_parse.cc'),
     rule='A case is one spelled number. Non-trivial: at least two digits, or constructed next to a value, a midpoint or a tie.',
     technique='differential property testing against glibc strtof/strtod (correctly rounded)',
     note='Sampled; the generators aim at the hard cases (decimals closest to midpoints, exact ties, limits of the range).')

prop('C18', 'stof and stod are total and refuse what is not a number',
     'On any byte string whatever (empty, embedded NUL, thousands of digits, random bytes) stof and stod terminate, read '
     'only the string, leave it unchanged, and return NaN unless the whole string spells a number, in which case the result '
     'is never a different number than the one written.',
     ['inputs'],
     'all byte strings up to two bytes and all strings up to five (thorough: seven) characters over the number alphabet '
     '(exhaustively); mutated numbers, long and random strings',
     'The tests feed only well-formed numbers; malformed input is where a hand-written parser over-reads or makes up values.',
     [STR, SU],
     [('scanning', SU + ': s2f_n, s2d_n'), ('status to NaN', STR + ': stof, stod')],
     harness=BOTH('c18_parse_any.cc'),
     rule='A case is one byte string. Non-trivial: it is not a well-formed number (bytes: of two or more bytes; digits: longer than five).',
     technique='exhaustive enumeration of short strings, mutation-based fuzzing of numbers, grammar oracle, under ASan',
     note='An exponent without digits (1e) may be refused or read without it; notations only the C library knows (+1, '
          'blanks, hexadecimal, infinity) may be refused or read.')

prop('C19', 'printing and parsing numbers round-trips exactly',
     'For every finite float f, stof(to_string(f)) is f bit for bit, signed zeros and subnormals included; the same holds '
     'for double with stod, and integers printed by to_string are read back as the nearest representable value.',
     ['inputs'],
     'all finite floats (thorough: exhaustively), doubles over the whole bit range, 32- and 64-bit integers',
     'The tests never feed printed numbers back; the two directions use different tables, so an error in either shows here '
     'whatever the format is.',
     [STR, SU, 'include/ryu/d2s_full_table.h'],
     [('printing', SU + ': f2s_buffered, d2s_buffered'), ('parsing', SU + ': s2f_n, s2d_n')],
     harness=BOTH('c19_roundtrip.cc'),
     rule='A case is one value. Non-trivial: finite and not zero (integers: two digits or more).',
     technique='round-trip property testing; exhaustive over all floats in the thorough check',
     note='Doubles are sampled, one per stratum of the bit range.')

SS = 'include/nanosstream.h'
prop('C20', 'stringstream accumulates exactly what is inserted',
     'After any history of insertions (also chained, of its own content, or of another stream\'s), clears and move '
     'assignments, str() is the concatenation of everything inserted since the last clear, a moved-from stream is empty, '
     'and streams never affect each other or strings copied from them.',
     ['histories', 'inputs'],
     'all histories over two streams, all byte contents',
     'No test uses stringstream.',
     [SS, STR],
     [('insertion', SS + ': stringstream::operator<<'), ('reset and move', SS + ': clear, operator=')],
     harness=[('c20_stringstream.cc', 'asan')],
     rule='A case is a history compared with std::string after every operation. Non-trivial: at least three operations, '
          'two non-empty insertions and a clear of non-empty content.',
     technique='model-based (stateful) property testing against std::string, under ASan',
     note='The class has only these operations at this commit.')

MATH = 'include/nanomath.h'
prop('C21', 'floating-point classification, fabs and copysign are exact',
     'For every float and double, isnan, isinf, isfinite and isnormal say exactly what its bits say. fabs clears the sign '
     '(also of zeros and infinities; also integers), copysign(x, y) has the magnitude of x and the sign of y, both bit for '
     'bit, and FloatToUint, UintToFloat, FloatToInt and IntToFloat preserve every bit.',
     ['inputs'],
     'all floats (exhaustively), doubles over every exponent, all 32-bit integers',
     'The tests try a few ordinary values; NaN payloads, signed zeros and subnormals are not reached.',
     [MATH],
     [('classification', MATH + ': isnan, isinf, isfinite, isnormal'), ('sign bit', MATH + ': fabs, copysign'),
      ('bit casts', MATH + ': FloatToUint, UintToFloat')],
     harness=[('c21_classify.cc', 'fast')],
     rule='A case is one bit pattern (copysign: two). Non-trivial: not zero.',
     technique='exhaustive enumeration of floats, stratified sampling of doubles, oracle on the bits',
     note='All 2^32 floats in every run; doubles by exponent, by sparse mantissas and one per stratum.')

prop('C22', 'floor and ceil are the nearest integers below and above',
     'For every float and double x, floor(x) is the largest integer value not above x and ceil(x) the smallest not below '
     'x, whatever the magnitude; integers, infinities and signed zeros map to themselves (in value), NaN to NaN.',
     ['inputs'],
     'all floats, doubles of every magnitude, values next to integers of every size',
     'The tests use small values only; magnitudes beyond the integer types and values one ulp from an integer are not reached.',
     [MATH],
     [('rounding', MATH + ': floor, ceil')],
     harness=[('c22_floor.cc', 'fast')],
     rule='A case is one value, usually with both signs. Non-trivial: it may have a fraction (near_integers, doubles: always).',
     technique='exhaustive enumeration and stratified sampling, differential against the C library',
     note='Every float of magnitude 0.25 to 2^39 in every run, every float in the thorough one; doubles are sampled.')

prop('C23', 'min, max, clamp, fmin and fmax select the right argument',
     'min and max return a reference to the smaller and larger argument, the first one when they compare equal, for '
     'numbers and class objects; clamp(x, lo, hi) is x, lo or hi according to where x lies. fmin and fmax of floats and '
     'doubles do the same by value and return the number when exactly one argument is NaN, NaN when both are.',
     ['inputs'],
     'all pairs and triples of numbers, special values and equal arguments over-represented',
     'The tests compare two or three ordinary numbers; ties, NaN and infinities are not reached.',
     [MATH, 'include/nanoalgorithm.h'],
     [('NaN rules', MATH + ': fmin, fmax'), ('selection', 'include/nanoalgorithm.h: min, max'), ('clamp', MATH + ': clamp')],
     harness=[('c23_minmax.cc', 'fast')],
     rule='A case is one tuple of arguments. Non-trivial: the bounds are ordered (clamp), any pair (the others).',
     technique='property-based testing against the definitions',
     note='Sampled; half of all values are special ones (zeros, infinities, NaNs, extremes).')

prop('C24', 'exp, log, log10 and fast_exp2 keep their accuracy everywhere',
     'For every float x, exp(x) (|x| <= 87.33) is within 135 + |x| ulp and fast_exp2(x) (|x| <= 126, clamped to that beyond) '
     'within 200 ulp of the exact value, both within 8 ulp for |x| < 1/16, and always between 2^-126 and 2^126. For every normal positive x, |log(x) - ln x| <= 3e-7 + 1.8e-7 '
     '|ln x| and |log10(x) - lg x| <= 1.5e-7 + 2.5e-7 |lg x|, with log(1) = 0 and log(0) = -infinity.',
     ['inputs'],
     'all floats other than NaN (thorough: exhaustively)',
     'The tests compare a few arguments with a loose tolerance; an error confined to a range of exponents or at its edges passes them.',
     [MATH],
     [('range reduction and polynomials', MATH + ': fast_exp2, exp, fast_log2, log, log10')],
     harness=[('c24_explog.cc', 'fast')],
     rule='A case is one argument. Non-trivial: the result is not saturated and the argument not zero (log: not 1).',
     technique='exhaustive and stratified enumeration of floats, differential against glibc in double precision',
     note='The bounds are what the polynomials achieve over the whole range, with a small margin; +infinity counts as '
          'the largest float and subnormal arguments of log as between the true value and log of the smallest normal.')

prop('C25', 'sin, cos and tan keep their accuracy over the supported range',
     'For every float x with |x| <= 8192, |sin(x) - exact| <= 2.2e-7 (1.7e-7 within two pi), |cos(x) - exact| <= 6.5e-7 '
     '(5.5e-7, and 1.9e-7 for |x| <= 1) and |tan(x) - exact| <= 1.8e-7 (1 + tan^2 x). For |x| < 2^30, sin and cos stay within [-1, 1].',
     ['inputs'],
     'all floats of magnitude below 2^30 (thorough: exhaustively)',
     'The tests compare a handful of angles; errors near multiples of pi/2 and in the reduction of large angles pass them.',
     [MATH],
     [('range reduction and polynomials', MATH + ': sin, cos, tan')],
     harness=[('c25_trig.cc', 'fast')],
     rule='A case is one argument with both signs. Non-trivial: magnitude between 2^-21 and 2^30.',
     technique='exhaustive and stratified enumeration of floats, differential against glibc in double precision',
     note='Quick samples one float in 64 overall and densely near multiples of pi/4; thorough enumerates all.')

prop('C26', 'sqrt, cbrt and pow keep their accuracy and sign rules',
     'For every normal positive float sqrt is within 1.76e-3 of the exact root, relatively, with sqrt(0), sqrt(1) and '
     'sqrt(infinity) exact and NaN for negative x; cbrt is within 13 ulp and keeps the sign. pow(x, y) is within the '
     'error of 2^(y log2|x|) computed by log2 and exp2, exact for y = 0 and 1, x*x for y = 2, 0 for x = 0 and y > 0, '
     'negative exactly for a negative base and an odd integer y, and 0 for a negative base and a y that is no integer.',
     ['inputs'],
     'all floats (thorough: exhaustively for sqrt, cbrt and the special rules of pow), random pairs for pow',
     'The tests compare a few positive arguments; special bases and exponents, parity of large exponents and extreme '
     'magnitudes are not reached.',
     [MATH],
     [('roots', MATH + ': sqrt, fast_inv_sqrt, cbrt'), ('power', MATH + ': pow')],
     harness=[('c26_roots.cc', 'fast')],
     rule='A case is one argument or pair. Non-trivial: a normal argument other than 1 (pow: neither saturated nor a special exponent).',
     technique='exhaustive and stratified enumeration of floats, differential against glibc in double precision',
     note='sqrt is an approximation by design at this commit (one Newton step); subnormal arguments of sqrt are not claimed.')

prop('C27', 'hyperbolic and error functions keep accuracy, range and symmetry',
     'For every float, |sinh error| <= 1.35e-7 on [-1, 1] and 135 + |x| ulp up to 87.33, cosh is within that too (4 ulp for |x| < 1/8), '
     'tanh within 3.4e-6 (2.5e-7 for |x| < 1/128, 3.5e-7 from 2, 1e-7 from 4), erf and erfc within 2.1e-6 (6.5e-7 from 1, 4e-7 from 2, '
     '3e-7 from 4), and ierf inverts erf within 3.5e-7 (|y| <= 0.996) or 2.2e-3 (up to 1), relatively. '
     'sinh, tanh, erf and ierf are odd and cosh is even bit for bit, |tanh| and |erf| never exceed 1, erfc stays in '
     '[0, 2], and sinh and cosh are finite for every number.',
     ['inputs'],
     'all floats (thorough: exhaustively)',
     'The tests compare a few positive arguments; negative ones, saturation and the seams between formulas are not reached.',
     [MATH],
     [('hyperbolic', MATH + ': sinh, cosh, tanh'), ('error functions', MATH + ': erf, erfc, ierf')],
     harness=[('c27_special.cc', 'fast')],
     rule='A case is one argument with both signs. Non-trivial: not zero.',
     technique='exhaustive and stratified enumeration of floats, differential against glibc, symmetry as metamorphic relation',
     note='The inverse of erf is judged by Newton\'s method on the C library\'s erf.')

TT = 'include/nanotype_traits.h'
prop('C33', 'type traits agree with the standard on every type',
     'For every type and pair of types, each type trait of nanotype_traits.h has the value, and each type transformation '
     'the result, that the C++ standard gives the trait of that name: categories, cv and reference changes, decay, '
     'common_type, conversions, and the constructible, assignable, destructible, trivial and nothrow families.',
     ['inputs'],
     'all types built from fundamental types, enums, generated classes and unions, pointers, references, arrays, '
     'functions, member pointers and cv-qualifiers',
     'The tests check a few dozen fixed types; traits go wrong on combinations (arrays of const, cv on references, abstract classes).',
     [TT],
     [('traits', TT + ': the is_* and remove_/add_ templates')],
     module='traits',
     rule='A case is one trait applied to one generated type (pair), compared with the standard library\'s. Non-trivial: '
          'the type is compound or a class.',
     technique='generated programs compiled against both libraries, differential against <type_traits>',
     note='Left out because this commit leaves them out on purpose or cannot compile them: is_integral of char16_t and '
          'char32_t, constructing references from void, cv-qualified function types; the nothrow family is compiled '
          'with NANOSTL_ENABLE_EXCEPTION, without which this commit makes it conservative.')

prop('C28', 'numeric_limits describes its types exactly',
     'For every arithmetic type numeric_limits covers, min() and max() are the smallest (for float and double: smallest '
     'positive normal) and largest finite values, so that every value of the type lies within them, and digits10 decimal '
     'digits are always preserved while one more are not. For float and double, epsilon() is the gap above 1, denorm_min() '
     'the smallest positive value, infinity() is above every finite value, and the NaNs are NaNs, quiet and signaling.',
     ['inputs'],
     'all values of the covered integer, float and double types',
     'The tests look at a few of the constants; one wrong bound shows only for values next to it.',
     ['include/nanolimits.h', 'include/nanocommon.h'],
     [('limits', 'include/nanolimits.h: numeric_limits')],
     harness=[('c28_limits.cc', 'fast')],
     rule='A case is one value compared with the limits of its type. Non-trivial: not zero.',
     technique='exhaustive enumeration of floats, sampled values of the other types, and comparison with <limits>',
     note='Doubles and the 64-bit integers are sampled, with the neighbourhood of the limits over-represented.')

prop('C29', 'algorithms and iterators act on exactly the given range',
     'For every range, also empty and of forward iterators only, max_element returns the first largest element, fill sets '
     'every element of the range and nothing outside it (with an execution policy too), and distance is the signed number '
     'of steps. iterator_traits names an iterator\'s types, and swap exchanges two values or arrays, one with itself included.',
     ['inputs'],
     'all ranges over raw memory, vectors, valarrays, lists and minimal iterators; all contents, ties over-represented',
     'The tests use one fixed array; empty ranges, ties, ranges inside a larger one and other iterators are not reached.',
     ['include/nanoalgorithm.h', 'include/nanoiterator.h', 'include/nanoexecution.h', 'include/nanotype_traits.h'],
     [('algorithms', 'include/nanoalgorithm.h: max_element, fill'), ('iterators', 'include/nanoiterator.h: distance, iterator_traits'),
      ('swap', 'include/nanotype_traits.h: swap')],
     harness=[('c29_algorithm.cc', 'asan'), ('c29_algorithm.cc', 'asan', ['-std=c++17', '-DNANOSTL_PSTL'])],
     rule='A case is one range and its content. Non-trivial: at least two elements (distance: not zero; swap: different values).',
     technique='property-based testing against <algorithm> and definitions, under ASan, with range-checking iterators',
     note='Ranges of up to 500 elements, sampled.')

prop('C30', 'hash, less and pair are consistent with equality and order',
     'hash gives equal values equal hashes, including the two zeros of a floating type, and different integers, floats or '
     'doubles different hashes; the hash of an engaged optional is that of its value, and equal variants hash alike. '
     'Pairs hold copies of their two members, compare equal when both do and order lexicographically, and less orders as <.',
     ['inputs'],
     'all values and pairs of values of every hashable type; pairs of numbers, strings and owning objects',
     'No test hashes anything; a few pairs are only stored.',
     ['include/nanofunctional.h', 'include/nanoutility.h', 'include/nonstd/optional.hpp', 'include/nonstd/variant.hpp'],
     [('hashes', 'include/nanofunctional.h: hash, __scalar_hash'), ('pairs', 'include/nanoutility.h: pair, operator==, operator<'),
      ('hash of optional', 'include/nonstd/optional.hpp: hash'), ('hash of variant', 'include/nonstd/variant.hpp: hash')],
     harness=BOTH('c30_hash.cc'),
     rule='A case is a pair of values, half of them related (equal, one bit apart, opposite). Non-trivial: integers and '
          'floats always, otherwise the two differ.',
     technique='property-based testing of the laws of hash, equality and order',
     note='Different hashes for different values hold at this commit because hash keeps every bit of the value.')

prop('C31', 'siphash is SipHash-2-4',
     'For every message, 16-byte key and output width (8 or 16 bytes) siphash writes exactly the SipHash-2-4 value of the '
     'message, reads nothing beyond the message and the key, writes nothing beyond the output, and changes neither input.',
     ['inputs'],
     'all messages, lengths, alignments and keys, both output widths',
     'No test calls it; the last partial word and the wide output are where an implementation goes wrong.',
     ['src/hash.cc', 'include/__hashfunc.h'],
     [('hash function', 'src/hash.cc: siphash')],
     harness=[('c31_siphash.cc', 'asan', ['-DNANO_HASH_CC="$REPO/src/hash.cc"'])],
     rule='A case is a message, key and alignment, hashed to both widths. Non-trivial: the message is not empty.',
     technique='differential property testing against an independent implementation, itself checked against published vectors; ASan',
     note='Every length to 1023 and random messages of up to 70000 bytes.')

prop('C32', 'ratio is the fraction in lowest terms',
     'For all 64-bit N and D other than zero (and the smallest negative number), ratio<N, D> has num and den without a '
     'common factor, den positive, num carrying the sign, and num/den equal to N/D; its type is the same for all ways of '
     'writing one fraction, and the SI names are the powers of ten they stand for.',
     ['inputs'],
     'all pairs of 64-bit integers, common factors, long Euclidean chains and extremes over-represented',
     'The tests look at two small fractions.',
     ['include/nanoratio.h'],
     [('reduction', 'include/nanoratio.h: nanogcd, ratio'), ('SI names', 'include/nanoratio.h: atto to exa')],
     module='ratios',
     rule='A case is one fraction. Non-trivial: it can be reduced or has a sign.',
     technique='generated programs (one row per fraction) compared with exact arithmetic',
     note='Fractions are sampled: 6000 in the quick check.')

prop('C34', 'memcpy copies exactly the given bytes',
     'For every size (zero, and beyond 4 GB), alignment and content, memcpy makes the destination bytes equal to the source '
     'bytes, touches nothing outside the two ranges, leaves the source alone and returns the destination.',
     ['inputs'],
     'all sizes, alignments and contents',
     'The tests do not call it.',
     ['include/nanocstring.h'],
     [('copy', 'include/nanocstring.h: memcpy')],
     harness=BOTH('c34_memcpy.cc'),
     rule='A case is one copy between two guarded blocks. Non-trivial: two bytes or more.',
     technique='exhaustive enumeration of small sizes and alignments, property-based testing of larger ones, under ASan',
     note='Copies beyond 2 and 4 GB use the same physical pages repeatedly mapped.')

prop('C35', 'integer sequences are computed exactly',
     'For every integral type and length, make_integer_sequence, make_index_sequence and index_sequence_for give 0, 1, ..., '
     'N - 1 of the type asked for. sum, partial_sum, exclusive_scan, inclusive_scan, plus, minus, zip, map, select, at_index '
     'and is_all of tao/seq give exactly the values and types that ordinary integer arithmetic and indexing give, element by '
     'element, as long as no sum overflows the type.',
     ['inputs'],
     'all sequences of all integral types (up to 33 elements for arithmetic, 9000 for counting) and lists of types',
     'No test uses a sequence longer than a small tuple; the doubling steps of the generator differ for every length.',
     ['include/tao/seq/make_integer_sequence.hpp', 'include/tao/seq/sum.hpp', 'include/tao/seq/at_index.hpp'],
     [('counting', 'include/tao/seq/make_integer_sequence.hpp: generate_sequence, memoize_sequence'), ('sums', 'include/tao/seq/sum.hpp, partial_sum.hpp, exclusive_scan.hpp, inclusive_scan.hpp'),
      ('elementwise', 'include/tao/seq/zip.hpp, plus.hpp, minus.hpp'), ('selection', 'include/tao/seq/at_index.hpp, select.hpp, map.hpp, is_all.hpp')],
     module='seqs',
     rule='A case is one operation on one generated sequence. Non-trivial: at least two elements (partial sums: at least one).',
     technique='generated programs (one row per operation and sequence) compared with exact arithmetic',
     note='Sequences are sampled; every length to 300 is enumerated.')

prop('C13', 'headers combine freely across any number of translation units',
     'A program in C++11 or a later standard may include any of the supported headers in any order, repeatedly, together with the standard '
     'library\'s and in several translation units, with NANOSTL_STRING_IMPLEMENTATION defined in one of them: it compiles '
     'and links without missing or duplicate definitions. Every feature then gives the same results in every unit, and '
     'objects can be passed between them.',
     ['inputs'],
     'all subsets and orders of the supported headers, all distributions over translation units, C++11 to C++20',
     'The tests are one program with one order of headers, so missing includes, missing inline and macro leaks pass them.',
     ['include/nanostl.h', 'include/nanostring.h', 'include/nanomath.h', 'include/nanoiostream.h', 'include/nanofunctional.h',
      'include/nanomemory.h', 'include/nanoratio.h', 'include/nanovector.h', 'include/nanocommon.h'],
     [('include guards and what headers include', 'include/*.h'), ('one definition per function', STR + ': NANOSTL_STRING_IMPLEMENTATION'),
      ('streams', 'include/nanoiostream.h: operator<<')],
     module='compose',
     rule='A case is one program built as C++11 to C++20 at -O0 to -O2, linked and run. Non-trivial: at least two headers or units.',
     technique='generated programs: random header subsets, orders and units with self-checking uses of each header, compiled, linked, run',
     note='Supported headers: every nano*.h but atomic, typeinfo and expected, which cannot be included alone; any, '
          'with type_info named in nanostl first; tao/seq and libs_thread.h, linked with nanothread.cc. <new> is included first.')

THR = 'src/libs_thread.h'
TH = ['-DNANO_THREADS_H="$REPO/src/libs_thread.h"', '-DNANO_THREAD_CLASS_H="$REPO/include/nanothread.h"', '-pthread']


def SIM(src):
    return [(src, 'sim', TH, ('sim', ['-O1'])), (src, 'sim', TH + ['-O2', '-DNDEBUG'], ('sim', ['-O2', '-DNDEBUG']))]


def REAL(src):
    return [(src, 'fast', TH, ('plain', ['-O2'])), (src, 'fast', TH + ['-DNDEBUG'], ('plain', ['-O2', '-DNDEBUG']))]


SIMNOTE = ('Schedules are sampled (random, with varying rarity of switches, spurious wake-ups, interrupted sleeps, clock jumps), '
           'switching before every memory access, atomic operation and library call of the instrumented code; weaker memory '
           'orders than sequential consistency show only as data races.')

prop('C36', 'atomic integers and pointers are atomic',
     'Under every interleaving of any number of threads, the results of load, store, inc, dec, add, sub, swap and '
     'compare_and_swap on a thread_atomic_int_t or thread_atomic_ptr_t are those of some sequential order of the operations '
     'that respects real time: each returns the value before it, arithmetic wraps as int, and neighbouring memory is never '
     'touched. What a thread wrote before a change is visible to a thread that has seen the change.',
     ['schedules', 'inputs'],
     'all values, all programs of operations on several cells, all interleavings of their threads',
     'No test uses the threads library; an operation that loses an update does so only under one interleaving.',
     [THR],
     [('operations on int', THR + ': thread_atomic_int_load to thread_atomic_int_compare_and_swap'),
      ('operations on pointers', THR + ': thread_atomic_ptr_load to thread_atomic_ptr_compare_and_swap')],
     harness=SIM('c36_atomic.cc'),
     rule='A case is a program of operations for one to six threads and one interleaving of them. Non-trivial: operations of '
          'different threads overlap, a value crosses from one thread to another, or (one thread) three operations or more.',
     technique='property-based testing under a deterministic scheduler: generated programs and schedules, linearizability check against a sequential model, vector-clock race detection',
     note=SIMNOTE)

prop('C37', 'mutexes exclude, signals wake exactly one wait per raise',
     'Under every interleaving at most one thread is between lock and unlock of a mutex, it sees everything the previous '
     'holders wrote, and every thread that wants the lock gets it in the end. A signal is a flag: a raise sets it, a wait '
     'that finds it set, or sees it set before its time is over, takes it down and returns non-zero, no raise before a wait is '
     'lost, a wait gives up (returning 0) neither before its timeout nor much later, and never without one; a signal or mutex '
     'may be terminated as soon as the last user has proceeded.',
     ['schedules', 'inputs', 'clock'],
     'all programs of locks, unlocks, raises and waits with all timeouts, all interleavings, clock phases, spurious wake-ups',
     'No test uses the threads library; lost wake-ups, early timeouts at a second boundary and use after termination need one interleaving or clock phase.',
     [THR],
     [('mutex', THR + ': thread_mutex_init, lock, unlock, term'), ('signal', THR + ': thread_signal_init, raise, wait, term')],
     harness=SIM('c37_signal.cc'),
     rule='A case is a program for two to five threads, a clock phase and one interleaving. Non-trivial: a thread waits (for the '
          'lock, the signal, or its timeout).',
     technique='property-based testing under a deterministic scheduler with a simulated clock: generated programs and schedules, linearizability check against a flag, race, deadlock and misuse detection',
     note=SIMNOTE + ' Timeouts are allowed to be up to one microsecond short, the resolution of the clock they are computed from.')

prop('C38', 'the queue delivers every element once and in order',
     'Between one producer and one consumer, under every interleaving and for any number of elements, a queue of n slots is a '
     'bounded FIFO: consume returns the initial and the produced elements once each in order, with everything the producer '
     'wrote before, produce succeeds exactly when there is space, and count is between 0 and n and what some sequential order '
     'explains. An operation that must wait goes on as soon as the other side makes it possible, gives up (0 or NULL, with no '
     'effect) only when its timeout has passed, at once if that is 0, and never if it is infinite; no slot outside the n given '
     'is touched.',
     ['schedules', 'histories', 'inputs', 'clock'],
     'all sizes, initial contents, programs of produce, consume and count with all timeouts, all interleavings, numbers of elements beyond 2^32',
     'No test uses the queue; stale signals, overruns on timeout and counter overflow need long histories or one interleaving.',
     [THR],
     [('produce and consume', THR + ': thread_queue_produce, thread_queue_consume'), ('initial contents', THR + ': thread_queue_init'), ('count', THR + ': thread_queue_count')],
     harness=SIM('c38_queue.cc') + REAL('c38_real.cc'),
     rule='A case is a queue, a program for each end and one interleaving. Non-trivial: the operations overlap or wait, or '
          '(one thread) more elements than slots pass through and the queue runs full or empty.',
     technique='property-based testing under a deterministic scheduler with a simulated clock, linearizability check against a bounded FIFO; state recurrence or 2^32 elements for endless use; stress with real threads',
     note=SIMNOTE + ' Endless use is decided by comparing the bytes of the queue between rounds.')

prop('C39', 'threads run once, are joined once, keep their own storage',
     'Every thread made by thread_create runs its function once with its argument, name and stack size; thread_join waits for '
     'it and returns the code it returned or gave to thread_exit, and thread_destroy, joined or not, releases everything and '
     'concerns no other thread. Ids of threads that exist differ and stay; every storage index has a value per thread, NULL '
     'until set, independent of all other indices; a timer waits at least the time given, also when interrupted, and little '
     'longer; an idle nanostl::thread is not joinable.',
     ['schedules', 'histories', 'inputs', 'faults'],
     'all trees of threads, codes, names, stack sizes, orders of joining and destroying, storage histories, waits, failures of the system to provide threads',
     'No test starts a thread with this library; reuse of handles and indices shows only in long histories.',
     [THR, 'src/nanothread.cc', 'include/nanothread.h'],
     [('threads', THR + ': thread_create, thread_join, thread_destroy, thread_exit'), ('storage', THR + ': thread_tls_create, set, get, destroy'),
      ('timer', THR + ': thread_timer_wait'), ('class', 'src/nanothread.cc')],
     harness=SIM('c39_threads.cc') + REAL('c39_real.cc'),
     rule='A case is a tree of threads, a history over storage indices, or a set of waits, and one interleaving. Non-trivial: '
          'three threads exist at once, threads with different values meet on one index, or signals interrupt the waits.',
     technique='property-based testing under a deterministic scheduler with a simulated clock and injected failures, and with real threads',
     note=SIMNOTE)

EXP = 'include/nonstd/expected.hpp'
prop('C40', 'expected holds a value or an error, the one last given to it',
     'An expected holds exactly one value or one error (expected<void, E>: success or one error): the one last constructed in, '
     'assigned, emplaced, converted from another expected or swapped into it, each destroyed exactly once and independent of '
     'where it was copied from, whatever the types are (owning, move-only, over-aligned, trivial, false in a boolean context). '
     'has_value, the accessors, value_or and the comparisons with expecteds, values and errors agree with the contents, value() '
     'throws exactly the error it holds, in-place arguments arrive as they were given, and constructions and conversions (value types other than '
     'void) are accepted exactly where the standard expected accepts them.',
     ['histories', 'inputs'],
     'all operation histories over several expecteds of each kind, all values and errors, all transitions between value and error',
     'No test uses expected; leaks, double destruction and lost errors need a transition between states that only histories of operations reach.',
     [EXP, 'include/nanoexpected.h'],
     [('storage', EXP + ': detail::storage_t_impl'), ('construction and assignment', EXP + ': expected, expected<void, E>'),
      ('swap', EXP + ': expected::swap, expected<void, E>::swap'), ('errors', EXP + ': unexpected_type, error_traits'), ('comparison', EXP + ': operator==, operator!=')],
     harness=[('c40_expected.cc', 'asan', ['-DNANOSTL_ENABLE_EXCEPTION']), ('c40_expected.cc', 'asan', ['-DNANOSTL_ENABLE_EXCEPTION', '-std=c++20', '-DPBT_SHARE=0.4']), ('c40_conversions.cc', 'asan', ['-DNANOSTL_ENABLE_EXCEPTION', '-std=c++23'])],
     rule='A case is a history over three expecteds (non-trivial: at least three operations, with values, errors and a move or swap), '
          'or one use of a special form (non-trivial: the values differ, or are not zero, or are NaN), or one conversion (non-trivial: to be accepted).',
     technique='model-based (stateful) property testing against a value-or-error model with self-checking contents, under ASan',
     note='The header needs the names of the standard library it refers to in nanostl (harness/expected_pre.h), and '
          'NANOSTL_ENABLE_EXCEPTION, without which emplace takes no constructor for one that cannot throw.')

IOS = 'include/nanoiostream.h'
prop('C41', 'An ostream writes what was put into it, complete and in order',
     'Each flush of an ostream (cout, or one of the user\'s) writes to standard output the texts of everything inserted into it '
     'since its last flush, in order, completely and once: of every number what to_string gives, of bool 1 or 0, of a C string its '
     'characters, of a string every byte it holds, of nullptr its name. An insertion writes nothing before the flush, keeps no '
     'reference to what was inserted, returns the stream, and never affects another stream or text written with stdio.',
     ['histories', 'inputs'],
     'all histories of insertions and flushes over cout and two further streams, all values of every insertable type, all byte contents',
     'No test writes to a stream, and what arrives depends on the history of insertions and flushes.',
     [IOS, SS, STR],
     [('insertion', IOS + ': basic_ostream::operator<<, operator<<(ostream&, const string&)'), ('flush', IOS + ': ostream::flush'), ('cout', IOS + ': cout')],
     harness=[('c41_ostream.cc', 'asan')],
     rule='A case is a history compared with the bytes that arrive at a redirected standard output (non-trivial: four operations, two '
          'flushes of non-empty streams, one of them while another stream holds text), or one value (non-trivial: more than one character).',
     technique='model-based (stateful) property testing against the concatenation of texts, standard output captured, under ASan',
     note='char, long, long double and pointers other than to characters have no insertion of their own, put, write, cerr and '
          'flushing at exit are not implemented at this commit; they are outside the property.')

FF = 'include/fast_float/fast_float.h'
prop('C42', 'fast_float::from_chars reads the longest number, correctly rounded',
     'For every character range, from_chars reads the longest prefix that is a number of the chosen format (general, fixed or '
     'scientific, any decimal point; also inf, infinity and nan), ptr is just behind it, ec is zero and the value is the float or '
     'double nearest to it, ties to even, of either sign, however many digits it has and however large its exponent (infinity or '
     'zero beyond the range). Otherwise ec is invalid_argument, ptr is first and the value is untouched; nothing outside the range '
     'is read and nothing is allocated.',
     ['inputs'],
     'all character ranges, all three formats, both types, texts of any length',
     'No test includes fast_float. Errors of rounding show for one text in millions only.',
     [FF, 'include/fast_float/parse_number.h', 'include/fast_float/ascii_number.h', 'include/fast_float/decimal_to_binary.h',
      'include/fast_float/digit_comparison.h', 'include/fast_float/bigint.h', 'include/fast_float/fast_table.h', 'include/fast_float/float_common.h'],
     [('grammar', 'include/fast_float/ascii_number.h: parse_number_string'), ('special values', 'include/fast_float/parse_number.h: detail::parse_infnan'),
      ('rounding', 'include/fast_float/decimal_to_binary.h: compute_float; include/fast_float/digit_comparison.h: digit_comp'),
      ('table', 'include/fast_float/fast_table.h: power_of_five_128')],
     harness=BOTH('c42_fast_float.cc'),
     rule='A case is one text (non-trivial: more than one character or digit), or the hardest texts of one exponent (non-trivial: '
          'more than twenty of them).',
     technique='property testing against a grammar and glibc\'s correctly rounded strtod and strtof, with hard cases from continued fractions, under ASan',
     note='The hexadecimal format is named but not implemented. Rounding modes other than to nearest are outside.')

PROPS.sort(key=lambda p: p['id'])
