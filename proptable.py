prop("D01", "Lookups agree with an abstract dictionary after every history",
 "After any sequence of insertions and removals, find, contains, count, at, size and empty of each hash map answer exactly as a mathematical dictionary with the same history would: a present key is found with its latest value, and an absent key is reported absent (at throws out_of_range).",
 ["histories", "inputs"], "all histories of insertions and removals, all keys, values and hash functions (every collision pattern, tag coincidence and home-group coincidence)",
 "A test runs one hash function over a few key sequences; losing a key needs a particular coincidence of home group, tag, probe length, overflow marks and erased slots.",
 TBL + [RB], mech(("probe sequence, tag match, overflow marks", T15 + ", " + T16 + ": find_impl, find_slot"), ("robin-hood probing", RB + ": find_impl")))
prop("D02", "Each insertion form has the documented effect on value and result",
 "insert, emplace, try_emplace, operator[] and insert_or_assign, in every overload, insert the given key and value exactly when the key is absent and report whether they did, together with an iterator to the element with that key. When the key is present, the element keeps its value, except with insert_or_assign, which assigns it; caller-owned lvalue arguments are never modified, and try_emplace leaves its arguments unconsumed when it does not insert.",
 ["inputs", "histories"], "all overloads, all keys and values, and all prior contents (including tables at the growth limit and full groups)",
 "Tests call a few overloads on absent keys; the contract differs per overload, key presence, growth and value category.",
 TBL + [G15, G16, RB], mech(("emplace_impl, try_emplace_impl, find_and_insert", T15 + ", " + T16), ("insert overloads", G15 + ", " + G16), ("emplace_impl", RB)))
prop("D03", "Erasing removes exactly the named elements and no other",
 "Erasing by key, by iterator, by iterator range or by predicate removes exactly the named elements, reports the number removed (or the following position), and leaves every other element reachable with its value. This holds however the element got to its place: collision overflow, displacement, growth, or re-use of an erased slot.",
 ["histories", "inputs"], "all histories before and after the removal, all keys and hash functions",
 "Whether a removal breaks the search chain of another key depends on their relative position in a collision chain, which a test fixes in advance.",
 TBL + [RB], mech(("erase_index / overflow handling", T15 + ", " + T16), ("backward-shift deletion", RB + ": erase_slot")))
prop("D04", "Iteration visits every element exactly once",
 "Iterating from begin to end visits every element exactly once and nothing else, whatever the table's occupancy and the history of insertions and removals; begin equals end exactly when the map is empty. Iterators obtained from find or an insertion continue the same sequence.",
 ["histories", "inputs"], "all histories, occupancy patterns and hash functions",
 "Skipping or repeating a slot depends on the occupancy pattern at group boundaries.",
 TBL + [RB, H + "flat_map_iterator.hpp"], mech(("begin, iterator increment, next_valid position", T15 + ", " + T16 + ", " + RB)))
prop("D05", "Capacity operations never change the contents",
 "reserve, rehash, shrink_to_fit, setting the maximum load factor and implicit growth never add, lose, duplicate or alter an element, and leave the map able to take further insertions and removals. No insertion leaves a group map fuller than its maximum load factor allows. After reserve(n) there is room for n elements within the load limit (tables of at most 32 buckets of the two group maps may fill up), and rehash and shrink_to_fit keep the elements present within it.",
 ["histories", "inputs"], "all contents, all requested sizes (zero, below, at and above the current size) and all interleavings with other operations",
 "Tests grow by inserting; shrinking requests, boundary sizes and erased-slot mixes are not sampled.",
 TBL + [RB], mech(("reserve, rehash, resize, shrink_to_fit, max_load_factor", T15 + ", " + T16 + ", " + RB)))
prop("D06", "clear empties the map and leaves it usable",
 "clear, with or without releasing memory, on a map in any state leaves size zero, no key present and begin equal to end, destroys every element exactly once, and leaves a map that behaves as a new one.",
 ["histories", "inputs"], "all histories before and after the clearing, including never-filled and grown maps",
 "Stale tags, marks or thresholds show only in particular later insertions.",
 TBL + [RB], mech(("clear, clear_data, destroy", T15 + ", " + T16 + ", " + RB)))
prop("D07", "Copies are equal and independent; moves and swaps transfer everything",
 "A copy-constructed or copy-assigned map has exactly the source's elements and shares no state with it; move construction and assignment transfer all elements, leaving the source empty and usable; swap exchanges two maps' contents; self-assignment changes nothing. Afterwards both maps work, including growth.",
 ["histories", "inputs"], "all source and target histories and hash functions",
 "Stale size, threshold or pointers after a transfer show only in later operations on a particular state.",
 TBL + [RB], mech(("copy/move constructors, assignment, swap_content", T15 + ", " + T16 + ", " + RB)))
prop("D08", "Bulk construction and insertion equal inserting one by one",
 "Constructing from, assigning or inserting an iterator range or an initializer list gives exactly the map obtained by inserting the elements one by one: the first of duplicate keys wins, none is lost, and the elements already present stay.",
 ["inputs", "histories"], "all element sequences (duplicates, equal hashes, keys already present, lists longer than the free room)",
 "Presizing from the range length combines with duplicates and existing load in ways a sampled list does not reach.",
 TBL + [G15, G16, RB], mech(("insert(first, last), insert(initializer_list), range constructors", G15 + ", " + G16 + ", " + RB)))
prop("D09", "Elements are constructed and destroyed exactly once and memory is returned",
 "Over a map's whole life every key and value object it creates is destroyed exactly once, no object is used before construction or after destruction, and every allocated byte is returned (with the size it was allocated with) when the map is destroyed.",
 ["histories", "inputs"], "all histories and hash functions, for element types with non-trivial copy, move and destruction, small or large",
 "Tests use trivial element types and never count; a leak or double destruction changes no checksum.",
 TBL + [RB, H + "map_slot_policy.h"], mech(("slot transfer on growth, temporary slots of emplace, destroy", T15 + ", " + T16 + ", " + RB)))
prop("D10", "No operation reads or writes outside its own memory",
 "No operation on a map in any reachable state reads or writes outside the map's live allocations, uses freed memory, lets memory that was never written decide anything, or frees something it does not own.",
 ["histories", "inputs"], "all operations after all histories, including never-filled, moved-from and maximally loaded maps, for all hash functions",
 "Vector loads at table ends, sentinels and default-constructed tables go out of bounds only for particular positions; without a sanitizer a test does not notice.",
 TBL + [RB, H + "flat_map_group15.hpp", H + "flat_map_group16.hpp"], mech(("group loads, sentinels, static empty groups", H + "flat_map_group15.hpp, " + H + "flat_map_group16.hpp"), ("control byte tail", RB)))
prop("D11", "A failing operation leaves the map intact",
 "If a memory allocation, or the construction of a key or value, throws during any operation, the exception reaches the caller, nothing is leaked, and the map keeps exactly the elements it had (a range insertion keeps the elements before the failure); it remains fully usable.",
 ["fault_sequences", "histories"], "every point at which an allocation or an element construction can fail, in every operation, from all prior contents",
 "No test injects a failure.",
 TBL + [RB], mech(("insertion into the table, growth, copying", T15 + ", " + T16)))
prop("D12", "Every operation terminates for every hash function",
 "Every lookup, insertion, removal and capacity operation terminates after a bounded number of steps for every hash function and every history (group15_flat_map, group16_flat_map: a constant hash function included; robin_hash_map, which grows when one home's probe limit is reached: as long as few keys share all their hash bits), and erasing and re-inserting a bounded set of keys again and again does not make the table grow without limit.",
 ["histories", "inputs"], "all hash functions and histories, in particular full collision and heavy insert-erase churn",
 "An unending probe needs a full table or chain of a special shape, which random keys do not produce.",
 TBL + [RB], mech(("probe loop termination, slot threshold", T15 + ", " + T16 + ", " + RB)))
SUP, HSH, STR = "src/jstd/support/", "src/jstd/hasher/", "src/jstd/string/"
prop("D13", "By default equal keys are one key; convertible arguments mean the converted key",
 "With the default hash function and equality, each map treats two keys as the same exactly when they compare equal (both floating-point zeros are one key; strings are compared by content), for integer, boolean, floating-point, enumeration, pointer, std::string and std::string_view keys. An argument that merely converts to the key type (an int for an int8_t key, a C string for a std::string key) denotes the converted key in find, count, contains, erase and every insertion form, and transparent functors are honoured by find.",
 ["inputs"], "all pairs of key values and all insertion forms of the listed key types",
 "Tests use int and string keys given as such; a narrowing argument, a second zero or an equal string in another buffer goes through other overloads.",
 [T15, T16, RB, HSH + "hash_helper.h", H + "key_extractor.h"], mech(("argument decomposition and key conversion of insertions", T15 + ", " + T16 + ", " + RB), ("default hash", RB + ": hash_helper")))
prop("D14", "The string and integer hash functions are functions of exactly the key's content",
 "Each byte-string hash (BKDR, Times31, AP, DJB, OpenSSL, RocksDB, CRC32C, the FNV-1a variants, the jstd::hash specialisations for strings, views and C strings) reads exactly the given bytes (or wide characters), at any alignment, leaves them unchanged, and gives equal results for equal contents; those that carry the name of a published algorithm compute it, and the polynomial and CRC hashes distinguish keys of one length that differ in a single byte. Equal floating-point keys hash equally, integral keys hash to their own value, a C string hashes as the same view or string, the integer mixers compute their defined products and CRCs, and the hash policies map every hash into the table.",
 ["inputs"], "all contents, lengths (bounded) and alignments",
 "Reading a byte behind the key, or missing the last byte of a tail, shows only for particular lengths and alignments, and then rarely in a test's outcome.",
 [HSH + "hashes.h", HSH + "hash_crc32.h", HSH + "fnv1a.h", HSH + "hash_helper.h"], mech(("word-wise loops and tails", HSH + "hashes.h, " + HSH + "hash_crc32.h, " + HSH + "fnv1a.h"), ("jstd::hash, hash policies", HSH + "hash_helper.h, " + HSH + "hashes.h")))
prop("D16", "Read-only operations write nothing, so concurrent readers are safe",
 "find, count, contains, at, size, empty, iteration (constant or not), begin/end, bucket_count, the load factors, the observers and copying from a map write neither to the map, its table and elements nor to variables of the library: any number of threads may run them on one map at once.",
 ["schedules", "histories"], "all read-only operations on maps with any history (a sequence of reads that writes nothing cannot race with another one)",
 "A lookup that caches or normalises something gives right answers in every single-threaded test.",
 TBL + [RB], mech(("find_impl, iterators, begin", T15 + ", " + T16 + ", " + RB)))
prop("D17", "Hash function, equality and allocator follow the elements as the standard says",
 "With stateful functors and allocators: a copied, moved, swapped or constructed map uses the hash function and equality of its source (or those given), never its former ones; copy and move assignment, swap and allocator-extended constructors keep or pass on the allocator as its propagation traits say (a copy constructor asks select_on_container_copy_construction); the maximum load factor follows the elements; memory always returns to the allocator (or an equal one) it came from, with the size it was allocated with; allocators that align only as the element type requires are enough.",
 ["histories", "inputs"], "all operations that take over elements from another map or range, for equal and unequal allocators, all contents",
 "Every test uses std::allocator and stateless functors, for which any mix-up is invisible.",
 TBL + [RB], mech(("constructors, assignment, swap_content, swap_policy", T15 + ", " + T16 + ", " + RB)))
prop("D18", "robin_hash_map: the element layout is invisible",
 "Whichever of its element layouts is chosen through the layout policy (keys and values stored in place or indirectly, with or without stored hashes), robin_hash_map behaves as the same dictionary: lookups, insertions, removals, iteration, capacity operations, copies and moves agree with it.",
 ["configurations", "histories"], "all eight combinations of indirect keys, indirect values and stored hashes, all histories and hash functions",
 "Tests use the layout that is detected for the type; the others are chosen by a policy only.",
 [RB, H + "map_layout_policy.h"], mech(("ctrl_data specialisations, indirect and direct code paths", RB)))
prop("D19", "The library's internal assertions hold",
 "The maps compile without NDEBUG, and no assertion inside them fails in any operation on any reachable map.",
 ["histories", "inputs"], "all histories and hash functions",
 "The tests are built with NDEBUG: an assertion is never evaluated.",
 TBL + [RB, SUP + "Power2.h"], mech(("assert()", T15 + ", " + T16 + ", " + RB)))
prop("D20", "Separate maps share no mutable state",
 "No operation on a map writes to a variable that other maps share (the static empty table, counters, caches): operations on different maps may run in different threads, and none changes another map.",
 ["schedules", "histories"], "all operations on maps with any history, never-filled, cleared and moved-from ones included (what writes nothing shared cannot race)",
 "Writing the shared empty table gives right answers in a single-threaded test with one map.",
 TBL + [RB], mech(("default_empty_groups, default_empty_ctrls", T15 + ", " + T16 + ", " + RB)))
prop("D21", "Elements stay where they are unless an operation may move them",
 "Lookups, iteration, copying, refused insertions and failed removals move no element and resize no table: pointers, references and iterators stay valid. In the two group maps, neither an insertion that does not enlarge the table nor a removal moves another element, and the table is not enlarged until the number of elements reserved for is exceeded. A move or swap hands the table over with every element at its address (with equal allocators).",
 ["histories", "inputs"], "all operations after all histories, all keys and hash functions (robin_hash_map moves elements on insertion and removal by design: there, for the operations that insert and remove nothing, moves and swaps)",
 "The tests keep no pointer or iterator across an operation; an early resize or a copied instead of moved table gives the same contents.",
 TBL + [RB], mech(("slot placement, erase_index, growth threshold, swap_content", T15 + ", " + T16 + ", " + RB)))
prop("U01", "Bit operations equal their definitions for every argument",
 "BitUtils' population counts, bit scans, zero counts, isolation and clearing of the lowest or highest bit, and binary logarithms (log2 of n rounded up), the portable fallbacks included, give the mathematically defined result for every 32-bit and 64-bit argument for which it is defined.",
 ["inputs"], "all 2^32 and 2^64 arguments", "A test samples a few values of 2^64.", [SUP + "BitUtils.h", SUP + "Power2.h"], mech(("popcnt, bsf/bsr, clz/ctz, ls1b/ms1b, log2", SUP + "BitUtils.h")))
prop("U02", "Power-of-two rounding and integer logarithms equal their definitions",
 "run_time::is_pow2, prev_pow2, next_pow2, round_down, round_to, round_up and log2_int of 32-bit and 64-bit values, and jm_log10, give the power of two or logarithm their documentation defines, for every argument with a representable result (32-bit round_up and next_pow2 saturate). The alignment helpers say whether an address is aligned and give the first aligned size or address not below the argument.",
 ["inputs"], "all arguments", "Boundary values at and around every power of two, and above 2^31, are not sampled.", [SUP + "Power2.h", "src/jstd/math/log10_int.h", "src/jstd/utility/utility.h"], mech(("run_time", SUP + "Power2.h"), ("jm_log10_u32, jm_log10_u64", "src/jstd/math/log10_int.h"), ("align_to, check_alignment", "src/jstd/utility/utility.h")))
prop("U03", "String views compare, cut and copy as the sequences of their characters",
 "jstd's string views and string primitives order and compare any two strings lexicographically by their (unsigned) characters, embedded NULs included, in the SSE4.2, the 64-bit and the STL mode (the 64-bit mode and the libc-style primitives: without embedded NULs), for char, 16-bit and wide characters; they read nothing outside the strings. substr, copy and comparisons of substrings use the given range cut at the end and throw out_of_range beyond it; iteration, element access, construction, assignment and modification of a view agree with the underlying sequence.",
 ["inputs"], "all contents and all positions and counts of strings up to the listed lengths (several vector widths)",
 "Vectorised comparison fails only for particular lengths, tails and differing positions, or reads beyond the end unnoticed.",
 [STR + "string_view.h", STR + "string_utils.h", STR + "string_traits.h", STR + "string_iterator.h", STR + "string_libc.h", STR + "string_stl.h"], mech(("is_equal, compare", STR + "string_utils.h"), ("basic_string_view", STR + "string_view.h")))
prop("U04", "Control-byte groups match and update exactly; probing visits every group once",
 "For flat_map_group15, 16 and 30: match_empty, match_used and match_hash give exactly the slots with that state for every content and hash; a used, emptied or overflow-marked slot is found again and nothing else changes; overflow marks of other hash classes stay; a stored hash is never the mark of an empty slot (nor the sentinel). The quadratic prober visits each of 2^k groups exactly once and then ends.",
 ["inputs"], "all contents of a group, hashes, positions and updates; all first groups of tables of up to 128 groups",
 "The maps' tests see a group only through the contents their keys happen to give it.",
 [H + "flat_map_group15.hpp", H + "flat_map_group16.hpp", H + "flat_map_group30.hpp", H + "group_quadratic_prober.hpp"], mech(("match, set, overflow", H + "flat_map_group15.hpp, " + H + "flat_map_group16.hpp, " + H + "flat_map_group30.hpp")))
prop("U05", "Vector lane helpers read and write exactly the named lane",
 "The SSE/AVX helpers of BitVec.h (insert, extract, set1, conversion to integers, signed byte comparison, all ones) read or change exactly the named lane, for every vector content and value.",
 ["inputs"], "all vector contents, lanes and values", "A test uses a few vectors, whose lanes often coincide.", [SUP + "BitVec.h"], mech(("AVX::mm256_insert/extract, SSE::mm_set1", SUP + "BitVec.h")))

prop("U06", "Generators yield the published sequences; bounded numbers stay in their range",
 "MT19937_32 and MT19937_64 yield the Mersenne Twister sequences as published (equal to std::mt19937 and std::mt19937_64) for every seed other than 0 (which stands for the time) and every key array, however seeded or reseeded. RandomGen's bounded integers lie within the requested closed range for every range and every raw number drawn, and every value of the range can be drawn; equal bounds give that value.",
 ["inputs"], "all seeds, keys (arrays of up to 8 words), ranges and raw numbers",
 "A test samples a few seeds and prints some numbers; a wrong constant or an off-by-one in the state update still looks random.",
 ["src/jstd/system/MT19937_32.h", "src/jstd/system/MT19937_64.h", "src/jstd/system/RandomGen.h"], mech(("srand, next_state, rand", "src/jstd/system/MT19937_32.h, src/jstd/system/MT19937_64.h"), ("nextInt(min, max) and its siblings", "src/jstd/system/RandomGen.h")))
prop("U07", "Iterator utilities and swaps act on exactly the elements they name",
 "iterator_utils' advance, distance, next and prev move by exactly the given number of steps for each iterator category (and use no operation the category lacks); a reverse_iterator visits the sequence backwards with every operator consistent with its base; begin, end, size, empty and data of containers, arrays and initializer lists are those of the object; swap and swap_ranges exchange exactly the named objects.",
 ["inputs"], "all contents and positions of sequences up to the listed length",
 "They are exercised only indirectly.", ["src/jstd/iterator.h", "src/jstd/memory/swap.h"], mech(("iterator_utils, reverse_iterator, range access", "src/jstd/iterator.h"), ("swap", "src/jstd/memory/swap.h")))

prop("D15", "The superseded flat16 and robin16 maps behave as dictionaries",
 "flat16_hash_map, robin16_hash_map, group30_flat_map and jstd::unordered_map answer as a mathematical dictionary with the same history would.",
 ["histories", "inputs"], "all histories, keys and hash functions",
 "Only the benchmarks use them.",
 [H + "flat16_hash_map.h", H + "robin16_hash_map.h", H + "group30_flat_map.hpp", H + "unordered_map.h"], mech(("find_impl, emplace_impl", H + "flat16_hash_map.h, " + H + "robin16_hash_map.h")),
 na="Superseded code that only the benchmarks use (the README names group15_flat_map, group16_flat_map and robin_hash_map). group30_flat_map and unordered_map do not compile when instantiated, so there is no code to encode; robin16_hash_map multiplies the symbolic hash by a 64-bit constant before indexing, which the solvers do not decide in the time of a check, and does not compile for list insertion; flat16_hash_map was executed symbolically and breaks the property in ways whose repair is a rewrite (see DESIGN.md).")
