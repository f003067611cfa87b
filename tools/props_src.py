p("C01", "daw::vector behaves as a finite sequence under every operation history",
  "After any history of constructions, insertions, erasures, resizes, assignments, swaps, moves and element accesses, a daw::vector holds exactly the sequence the history defines, and every access, comparison, search-by-iteration and returned iterator or reference designates the element the sequence semantics prescribes. This includes arguments that alias the vector's own elements, self-assignment, empty ranges and every reallocation boundary. Size never exceeds capacity, capacity never shrinks except where documented, and out-of-range checked access throws without changing anything.",
  ["histories","inputs"], "every finite sequence of public operations on a population of vectors, every element type category (trivial, owning, move-only), every position and count",
  "The tests run a handful of fixed push_back/insert scripts; correctness at each combination of (size, capacity, position, count, aliasing) is a universally quantified statement over histories.",
  ["vector.h","split_buffer.h","vector_algorithm.h"],
  [("growth and relocation","vector.h"),("insert/erase gap movement","vector.h")],
  [("contents","the finite sequence of element values","vector.h")], ["public observers of daw::vector"])
p("C02", "daw::vector owns each element exactly once and survives throwing elements",
  "Over any history, every element a daw::vector constructs is destroyed exactly once, no live element is lost, and the storage is released exactly once. If an element operation throws at any point, nothing leaks or is destroyed twice, the vector remains usable, and appending or reserving leaves the contents as they were.",
  ["histories","fault_sequences"], "every operation history and every index of the element copy/move/construct operation that throws",
  "No test injects a throwing element operation or counts lifetimes; the failing point has to range over every element operation of every call.",
  ["vector.h","split_buffer.h","vector_algorithm.h"],
  [("construct/destroy transactions","vector.h")],
  [("live objects","number of elements alive","vector.h")], ["instrumented element type"])
p("C03", "bounded containers keep sequence semantics inside fixed storage",
  "A bounded_vector, of any capacity, holds exactly the sequence its operation history defines: both ends and the middle can be modified, iteration and indexing agree, and size, emptiness and fullness always match the contents. Removing from the front never loses or reorders the remaining elements, and capacity freed at the front is reusable.",
  ["histories"], "every operation history that respects the stated capacity, for every small capacity",
  "The tests push a few elements and compare once; the index arithmetic depends on the history of front and back removals.",
  ["daw_bounded_vector.h","daw_bounded_array.h"],[("bounded storage with first/last index","daw_bounded_vector.h")],
  [("contents","the finite sequence","daw_bounded_vector.h")],["public observers"])
p("C04", "ring buffers and bit queues return exactly what was put in",
  "A ring adaptor and the fixed-width bit and nibble queues return exactly what was put in. A ring adaptor is a first-in first-out queue over any underlying container; a bit or nibble queue is a string of bits to which pushes append at the least significant end, from which pop_front removes at that same end and pop_back at the most significant end, for every width of queue, value and push and for either byte order of the pushed values. Size, emptiness, fullness and capacity equal the number of elements held and possible, across any number of wraparounds.",
  ["histories"], "every interleaving of pushes and pops at both ends within capacity, every width",
  "Wraparound and mixed-width histories are unbounded; tests use one short script.",
  ["daw_ring_adaptor.h","daw_bit_queues.h"],[("head/tail arithmetic","daw_ring_adaptor.h"),("shift/mask arithmetic","daw_bit_queues.h")],
  [("queue contents","sequence of elements/bits","daw_ring_adaptor.h")],["front/back/pop results"])
p("C05", "fixed-capacity hash containers behave as finite maps and sets",
  "bounded_hash_map, bounded_hash_set, hash_set_t and static_hash_t hold exactly the set of keys (with the latest value for each) that their insert and erase history defines. Lookup, membership, size and iteration agree with that map for every collision pattern of the hash function, no key is ever present twice, and erasing one key never hides or changes another.",
  ["histories","inputs"], "every insert/erase/lookup history over a small key universe and every hash collision pattern",
  "Tests insert a few well-spread keys; the defect classes (broken probe chains, duplicates after erase, full tables) need colliding keys and multi-step histories.",
  ["deprecated/daw_bounded_hash_map.h","deprecated/daw_bounded_hash_set.h","daw_hash_set.h","static_hash_table.h"],
  [("linear probing","deprecated/daw_bounded_hash_map.h")],[("map","finite map key -> value","deprecated/daw_bounded_hash_map.h")],["find/exists/size/iteration"])
p("C06", "ordered and fixed lookup tables behave as insertion-ordered finite maps",
  "The ordered map keeps exactly one value for each key and iterates its keys in the order in which they were first inserted, over any history of insertions and updates; lookup, subscripting, size and both iteration directions agree. The fixed lookup table finds exactly the keys stored in it, for every pattern in which their slots collide or wrap around up to its capacity, and refuses a further key when it is full.",
  ["histories","inputs"],"every insert/update/lookup history over a small key universe",
  "Tests use one insertion order and no update/collision histories.",
  ["deprecated/daw_ordered_map.h","deprecated/daw_fixed_lookup.h"],[("index map + value vector","deprecated/daw_ordered_map.h")],[],["iteration and lookup"])
p("C07", "graph structure stays consistent under every edit history",
  "After any history of adding and removing nodes and edges, a graph_t contains exactly the nodes and edges the history defines: each node's outgoing set mirrors the incoming sets of its neighbours, removing a node removes every edge that touches it and nothing else, and node identities and values of the remaining nodes never change. Root, leaf, edge, neighbour and search queries return exactly what that structure implies.",
  ["histories"],"every finite history of node/edge insertions and removals, both directed and undirected edge entry points",
  "Tests build one or two fixed graphs and never interleave removals with queries.",
  ["daw_graph.h"],[("mirrored incoming/outgoing edge sets","daw_graph.h")],[("nodes/edges","a finite labelled digraph","daw_graph.h")],["graph_t queries"])
p("C08", "graph algorithms compute what their names promise on every graph",
  "For every graph, topological sorting (walks and ranges, forward and reverse) yields each node that is not on or behind a cycle exactly once and never before one of its predecessors, following the requested order among ready nodes. Breadth-first walks reach every reachable node with first visits in order of distance, and depth-first walks visit every reachable node exactly once following an edge order. The spanning tree reduction of a rooted graph keeps every node reachable from the root through exactly one remaining edge and touches nothing else.",
  ["inputs"],"every directed graph on a small number of nodes, every start node, every weight assignment from a small range",
  "The tests check a few fixed graphs; ordering and once-only visiting are claims over all graphs.",
  ["daw_graph_algorithm.h","daw_graph.h"],[("worklist traversals","daw_graph_algorithm.h")],[],["visited-node sequences"])
p("C09", "owning smart pointers destroy exactly once and never alias",
  "For unique_ptr, maybe_unique_ptr, value_ptr, poly_value, unique_array and the copyable unique pointer, over any history of construction, move, copy, swap, reset, release and destruction: every owned object is destroyed exactly once and only by its current owner, a moved-from owner is empty (or holds what is documented), copies are independent of their source, and observers report exactly the current object.",
  ["histories"],"every operation history over a small population of owners, including self-move, self-swap and reset to null",
  "Tests construct, move once and stop; ownership is a whole-history invariant.",
  ["daw_unique_ptr.h","daw_maybe_unique_ptr.h","daw_value_ptr.h","daw_poly_value.h","daw_unique_array.h","deprecated/daw_copiable_unique_ptr.h"],
  [("exchange-on-move","daw_unique_ptr.h"),("deep copy","daw_value_ptr.h")],[("owner -> object map","partial injective map","daw_unique_ptr.h")],["instrumented object counts"])
p("C10", "reference-counted pointers keep the object alive exactly as long as it is shared",
  "Over any history of creating, copying, moving, assigning, aliasing, swapping and resetting reference-counted pointers, the managed object is alive exactly while at least one owner refers to it and is destroyed exactly once when the last one goes. The reported use count equals the number of owners.",
  ["histories"],"every operation history over a small population of handles and objects, including self-assignment",
  "Tests create one object and let it go; double release or leak needs multi-handle histories.",
  ["daw_ref_counted_pointer.h"],[("control block count","daw_ref_counted_pointer.h")],[("handle -> object","partial map","daw_ref_counted_pointer.h")],["use_count, instrumented destruction"])
p("C11", "shared functions keep the callable alive and die exactly once across threads",
  "Under every interleaving of copies, moves, destructions, calls and weak-to-strong promotions on several threads, a shared function's callable is destroyed exactly once, never before or during a call through a strong handle, and its storage is released exactly once after the last weak handle. A weak handle can be promoted only while a strong one exists.",
  ["schedules","histories"],"every interleaving of the atomic steps of a small number of threads, and every single-threaded handle history",
  "The test is single-threaded; the guarantee is about all schedules.",
  ["daw_shared_function.h"],[("strong/weak counters","daw_shared_function.h")],[("counts","strong and weak owners","daw_shared_function.h")],["destruction and call events"])
p("C12", "atomic waits return only when their condition held and never miss a wakeup",
  "Every wait (for a value, for inequality, or for a predicate; untimed, with timeout or with deadline) returns success only if the awaited condition was true of the atomic at some instant of the call, an untimed wait returns once the condition becomes and stays true with notification, and a timed wait reports failure only after its deadline passed. With an acquiring order the return happens after the write that satisfied the condition.",
  ["schedules","inputs"],"every interleaving of the waiter with writers of the atomic, spurious wakeups and clock advances",
  "A test samples one schedule on a real clock; missed or premature returns depend on the schedule.",
  ["daw_atomic_wait.h"],[("load/wait loop","daw_atomic_wait.h")],[],["wait results against the atomic's history"])
p("C13", "the constexpr-capable atomic implements every read-modify-write exactly",
  "Each operation of the constexpr-capable atomic returns the value held immediately before (or after, where so specified) and leaves the value the operation defines, as one indivisible step under concurrency. Compare-exchange succeeds only on equality and otherwise reports the observed value, for all starting values and operands including wraparound.",
  ["inputs","schedules"],"all operation histories over a small value range plus wraparound values; concurrent histories linearize",
  "Tests try each operation on one value on one thread.",
  ["daw_cx_atomic.h"],[("delegation to atomic builtins","daw_cx_atomic.h")],[],["operation results"])
p("C14", "optional, expected and take track engagement and value exactly",
  "Over any history of construction, assignment, emplacement, swap, reset, copy and move, an optional or expected value is engaged exactly when the history says so and yields exactly the stored value or error; contained objects are constructed and destroyed exactly once. Accessing a missing value is reported as documented, a function whose outcome is captured is called exactly once and its result or exception is what is stored, a validated object never holds an invalid value after a failed change, and comparisons follow the documented order.",
  ["histories"],"every operation history over a small population of objects, every combination of engaged/empty/error operands",
  "Tests exercise each transition once; the state machine over pairs of objects has many more.",
  ["daw_optional.h","daw_expected.h","deprecated/daw_checked_expected.h","daw_take.h","daw_validated.h","daw_union_pair.h"],[("engagement flag or variant index","daw_expected.h")],[],["observers and instrumented values"])
p("C15", "type-erased callables call exactly the bound target with the given arguments",
  "A type-erased callable wrapper, after any history of construction, assignment, copy, move, swap and reset, invokes exactly the target the history bound last, passes every argument through unchanged, returns its result, keeps its own copy independent of the source where it owns, refers to the original where it does not own, and destroys owned targets exactly once. Calling an empty wrapper is reported as documented.",
  ["histories"],"every operation history over a small population of wrappers and distinguishable targets",
  "Tests call a freshly built wrapper; rebinding, moving and copying histories are not covered.",
  ["daw_stack_function.h","daw_function_ref.h","daw_function_view.h","daw_function.h","daw_function_table.h"],[("inline storage + vtable","daw_stack_function.h")],[],["target identity and results"])
p("C16", "scope guards and unique resources run their action exactly once",
  "Over every history of construction, move, dismissal, reset, release and scope exit by normal return or exception, a guard's action runs exactly once if it is still armed when its scope ends by the kind of exit it watches, and never otherwise. A one-shot flag admits exactly one winner, and a counted resource never hands out more than its count, also among concurrent threads.",
  ["histories","fault_sequences"],"every operation history and both kinds of scope exit, nested unwinding included",
  "Tests check one guard each; exactly-once is a whole-history invariant.",
  ["daw_scope_guard.h","daw_unique_resource.h","daw_allow_once.h","daw_countable_resource.h"],[("armed flag","daw_scope_guard.h")],[],["recorded action events"])
p("C17", "string_view searches and comparisons equal the definition on every input",
  "For every text and every argument, each string_view search, membership test, prefix/suffix test, comparison, counting and element access returns exactly what the mathematical definition on character sequences gives, including empty operands, positions at or past the end, and absent needles. No operation reads outside the text.",
  ["inputs"],"all texts and needles up to a bound over a small alphabet, all positions and counts including out-of-range ones, all character predicates",
  "Tests check a fixed set of strings; boundary combinations of position and length are quantified.",
  ["daw_string_view.h"],[("find family","daw_string_view.h")],[],["return values"])
p("C18", "string_view splitting and trimming partition the text",
  "Every operation that removes a part of a string_view (prefix/suffix removal, pop until a delimiter, trimming, splitting, substrings) returns and leaves exactly the sub-ranges of the original text its definition names: the removed part, the delimiter and the remainder concatenate to the original, nothing is duplicated or lost, and repeated application terminates with all pieces in order.",
  ["histories","inputs"],"all texts up to a bound over a small alphabet, all delimiters, all sequences of modifying operations",
  "Tests pop once from one text; the partition law quantifies over texts and histories.",
  ["daw_string_view.h"],[("offset arithmetic","daw_string_view.h")],[("view","[first,last) sub-range of the text","daw_string_view.h")],["offsets and lengths"])
p("C19", "text parsing converts exactly the accepted language",
  "Parsing helpers accept exactly the texts of their stated grammar, yield exactly the value those texts denote, reject everything else in the documented way, and consume exactly the parsed prefix. Splitting and field extraction cover the whole input in order.",
  ["inputs"],"all texts up to a bound over an alphabet containing digits, signs, delimiters, blanks and other characters",
  "Tests parse a few well-formed strings.",
  ["daw_parser_helper.h","daw_parser_helper_sv.h","daw_parse_to.h","daw_from_string.h","daw_parse_args.h","daw_parser_addons.h"],[("predicate scanners","daw_parser_helper.h")],[],["values and consumed ranges"])
p("C20", "fixed-size sorting sorts every input",
  "For every supported size and every input, sorting leaves a permutation of the input that is ordered by the given comparison, for any strict weak ordering and any iterator category supported, and touches nothing outside the range.",
  ["inputs"],"all inputs for each network size by the 0-1 principle plus all permutations of small sizes, both default and reversed comparisons",
  "A network has 2^n cases; the tests try random samples.",
  ["daw_sort_n.h"],[("sorting networks","daw_sort_n.h")],[],["the sorted range"])
p("C21", "range algorithms return what their definitions say and touch only their range",
  "Every algorithm over iterator ranges returns the value or position its definition prescribes and leaves every element of its output range exactly as prescribed, for all inputs including empty ranges, and never reads or writes outside the given ranges. Elements not selected by the algorithm are unchanged.",
  ["inputs"],"all sequences up to a bound over a small value set, all predicates over it, all split points and counts",
  "Tests use one array per algorithm.",
  ["daw_algorithm.h","algorithms/daw_algorithm_find.h","algorithms/daw_algorithm_copy_n.h","algorithms/daw_algorithm_adjacent_find.h","algorithms/daw_algorithm_partial_sum.h"],[("loops","daw_algorithm.h")],[],["returned positions, ranges"])
p("C22", "container algorithms equal their element-wise definitions",
  "The container-level algorithms (sort, find, accumulate, transform, copy, erase, append, splitting and the like) give exactly the result of the corresponding definition on the container's sequence, for all containers including empty ones, and leave non-target containers unchanged.",
  ["inputs"],"all sequences up to a bound over a small value set and all predicates over it",
  "Tests use one container per algorithm.",
  ["daw_container_algorithm.h"],[("wrappers over ranges","daw_container_algorithm.h")],[],["resulting containers"])
p("C23", "iterator adaptors obey iterator laws on every navigation history",
  "Every iterator adaptor, over any history of increments, decrements, jumps, copies and comparisons within its range, designates the element its definition maps its position to; distance, ordering, equality, indexing and arithmetic agree with one another and with the underlying sequence.",
  ["histories","inputs"],"all navigation histories over all small underlying sequences",
  "Tests only loop forward once.",
  ["iterator"],[("position arithmetic","daw_iter_view.h")],[],["dereferenced values and distances"])
p("C24", "pipelines yield exactly the composed sequence",
  "Every pipeline stage and every composition of stages yields exactly the sequence obtained by applying the stages' definitions in order to the source sequence, for all sources including empty ones, without skipping, repeating or reordering elements.",
  ["programs","inputs"],"all small sources and all compositions of stages up to a bounded depth",
  "Tests run a single composition on a single source.",
  ["pipelines"],[("range adaptors","daw_pipelines.h")],[],["collected output"])
p("C25", "fixed-size bit sets implement finite sets of positions",
  "A static bit set of any size holds exactly the positions its operation history sets; construction from integers, strings and positions, bitwise operators between sets of any two sizes, shifts, counting, comparisons and text forms equal the corresponding set operations restricted to its size, and no operation reads or disturbs positions outside the size.",
  ["histories","inputs"],"all operation histories over sizes straddling word boundaries",
  "Tests use one size and a few bits; errors at word boundaries depend on size and shift.",
  ["daw_static_bitset.h","daw_bit.h","daw_bitset_helper.h"],[("word arrays","daw_static_bitset.h")],[],["bit patterns"])
p("C26", "integer helpers compute the exact mathematical result on their domain",
  "Mixed-sign integer comparison, bit manipulation, rotation, byte and bit reversal, checked natural numbers, unsigned integer types and the integer and float-representation helpers of the math headers give the exact mathematical result for every pair of representable operands, and report a range error exactly when the result is not representable and checking is documented.",
  ["inputs"],"all pairs of 8-bit operands in every signedness combination, boundary values of wider types",
  "Tests try a handful of pairs.",
  ["daw_int_cmp.h","daw_natural.h","daw_bit.h","daw_math.h","daw_uint_buffer.h","daw_endian.h","daw_arith_traits.h","daw_uint_types.h","daw_cxmath.h","daw_integer_reverse.h","daw_bitset_helper.h"],[("sign handling","daw_int_cmp.h")],[],["results"])
p("C27", "tuples hold, select, combine and forward each element unchanged",
  "A tuple (tuple2, tuple, std::tuple through the helpers, a pack of forwarded references) keeps every element at its position: access by constant or run-time index, apply, for_each, concatenation, comparison, positional arithmetic, minimum and maximum, construction from a tuple and printing use exactly the elements addressed, each once and in order; access through an rvalue moves that element only, through anything else none; references stay references. An index past the end selects nothing. keep_n holds exactly the n first values, in its order, of all that was inserted, equal ones in order of arrival.",
  ["inputs","histories","configurations"],"all element shapes of up to five elements of five kinds (integer, copyable, movable only, empty, final), each value category, all short histories",
  "Tests build one or two tuples of integers and read them.",
  ["daw_tuple2.h","daw_tuple.h","daw_tuple_helper.h","daw_tuple_forward.h","daw_apply.h","daw_fwd_pack_apply.h","daw_keep_n.h"],[("get for each value category","daw_tuple2.h"),("insertion","daw_keep_n.h")],[],["values and moved-from elements"])
p("C28", "hashes are the published functions of the bytes, and a perfect hash table is the map it was made from",
  "FNV-1a (both widths), SipHash-2-4 and MetroHash64 give the value their definitions give for every byte sequence, key and seed, whichever overload is called (iterators, arrays, strings, C strings, objects, integers) and whatever the sign of the character type; equal bytes give equal hashes through every way to call. A perfect hash table can be made from any distinct keys with distinct hashes, finds exactly those keys, gives each its own value, and a write to one key changes no other.",
  ["inputs","histories"],"texts of every length over the block sizes of the functions with bytes on both sides of 127; all orders of small key sets",
  "Tests compare a few ASCII strings and one key set.",
  ["daw_fnv1a_hash.h","daw_generic_hash.h","daw_sip_hash.h","daw_metro_hash.h","daw_min_perfect_hash.h"],[("hash combination","daw_min_perfect_hash.h")],[],["values"])
p("C29", "spans and span writers never leave their buffer",
  "A span denotes exactly the sub-range its construction and slicing history defines, writes through it change exactly the addressed elements, and a span writer appends each value in order, advances by exactly the amount written, and refuses a write that does not fit without changing anything. Slicing with out-of-range positions behaves as documented and never reaches outside the buffer.",
  ["histories"],"all slicing and writing histories over small buffers",
  "Tests take one or two slices.",
  ["daw_span.h","daw_span_writer.h","daw_view.h","daw_contiguous_view.h"],[("pointer/size arithmetic","daw_span.h")],[("window","offset and length in the buffer","daw_span.h")],["offset, length, buffer contents"])
p("C30", "variant visitation calls exactly the handler of the active alternative",
  "Visiting one or several variants invokes exactly the handler for the combination of active alternatives, exactly once, with those alternatives' values and value category (nested visits for several variants, in argument order), and returns its result; a valueless or unhandled variant is reported as documented. Visiting a value as another representation stores the modified representation exactly when the visitor returned.",
  ["inputs","configurations"],"all combinations of active alternatives of all small variant shapes",
  "Tests visit a few combinations; the jump table has one cell for each.",
  ["daw_visit.h","daw_visit_as.h","daw_overload.h","daw_variant_cast.h"],[("jump table","daw_visit.h")],[],["handler identity and arguments"])
p("C31", "pointer wrappers are the pointer they wrap, and small buffer storage holds exactly one object",
  "not_null, observer_ptr and prop_const_ptr denote the pointer they were given: reading, writing, stepping, arithmetic, subscripts, differences, comparisons, conversions and hashes are those of that pointer, in const and mutable form; postfix forms yield the old position. not_null refuses null on construction and assignment and is otherwise never null; observer_ptr's monadic functions call what they are given exactly when documented. sbo_storage holds exactly the object put in, wherever its size and alignment place it, suitably aligned, destroys it and frees its memory exactly once, and is empty without a leak when its constructor throws.",
  ["histories","inputs"],"all short histories over a small buffer from every pair of positions; objects that fit, do not fit, are over-aligned, or throw",
  "Tests take one difference and store two objects; most members are never instantiated.",
  ["daw_not_null.h","daw_observer_ptr.h","daw_prop_const_ptr.h","daw_monadic_pointer_ops.h","daw_sbo.h"],[("null check","daw_not_null.h"),("placement","daw_sbo.h")],[],["position and buffer contents","live objects and allocations"])
p("C32", "values assembled from parts are made of exactly the parts given",
  "A piecewise factory makes its value from the last value or function set for each argument, by position or by index, calls each function once for each value made, takes arguments out only when it is an rvalue, and refuses an index past the end. A poly_var reads and writes the object it holds through its base without copying it, and holds exactly what was last assigned. A named option is the one given, wherever in the list, or else the default. Concatenated strings, zipped containers and simple arrays have exactly the elements of their parts in order.",
  ["histories","inputs"],"all short histories of setting and making; every order of three options; all triples of short strings",
  "Tests set each argument once and make one value.",
  ["daw_piecewise_factory.h","daw_poly_var.h","daw_named_params.h","daw_string_concat.h","daw_zipcontainer.h","daw_simple_array.h"],[("set by index","daw_piecewise_factory.h")],[("arguments","what is set for each argument","daw_piecewise_factory.h")],["values, calls, moved-from arguments"])
