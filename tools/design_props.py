PROPS = {
"C01": """The state is the sequence, its capacity and the allocator identity of two vectors; operations are the whole modifier and query interface with every
position, count, aliasing argument (an element of the vector itself) and range kind. The oracle is sequence algebra (`Ins`, `Cut`, `Take`, ...); capacity is only constrained to be sufficient, and unchanged where
reallocation is documented not to happen.""",
"C02": """`VectorExc.tla` extends the vector with a fuse: the k-th copy or move construction throws. Specified: nothing leaks, nothing is destroyed twice,
the strong guarantee where documented, the basic one elsewhere (`Post` then allows each sequence of live elements that could remain). `Vector.tla` histories run with tracked elements too.""",
"C03": """Sequence plus the storage offset of the first element (`pop_front` moves it), so that all operations are tried with free room at the front, at the back, both or none. Array and vector both specified.""",
"C04": """Rings: sequence with fixed capacity and position of the front. Bit queues: the sequence of bits, least significant first; push and pop of widths 1..N in both byte orders.""",
"C05": """Finite maps and sets. The *hash function is part of the configuration*: a table from keys to home slots, so each collision pattern of few keys is enumerated instead of hoped for. Values observed with `find`, iteration, `size`, `exists`, all after each operation.""",
"C06": """Same idea for insertion-ordered maps (with comparisons that identify distinct keys) and fixed lookup tables.""",
"C07": """The graph as (nodes, values, edges), operations as edits on it with valid and stale node ids; after every edit the whole adjacency structure in both directions is recorded and compared. Iteration order is not judged.""",
"C08": """Results of topological sorts, walks and spanning trees are judged as relations on the recorded graph (each edge goes forward, each reachable node exactly once, tree has n-1 edges and minimal weight), never against one particular order.""",
"C09": """A state assigns each handle the object it owns or none; objects die when the specification says so. Destruction count, deleter calls and values are recorded after each operation.""",
"C10": """As C09 with a count per object: it must be alive exactly while some handle shares it.""",
"C11": """The specification's state is a multiset of strong and weak handles per logical thread; its steps are the *atomic accesses* of the real code. `vsched.h` replaces `std::atomic`/`atomic_ref` by versions that hand control back to the
scheduler before each access, so a history contains the interleaving (`sched t`) as operations, and keeps vector clocks, so a call that does not happen before the destruction is an error even if this run was lucky. Destroyed exactly once, nothing leaked, calls only while alive, a lock succeeds only while a strong handle exists.""",
"C12": """Waiter and writers as logical threads with a fake clock, spurious wakeups and notifications under the same scheduler. `Post` accepts a return iff the condition held at some read since the call, a timeout only after the deadline, and blocks are judged when everything else is finished (missed wakeup).""",
"C13": """Each read-modify-write is specified as a step on the value with its result; concurrent histories must linearize: TV keeps the set of states reachable by some order of the pending operations. Single-thread tables cover wraparound and the constant-evaluated path (computed by the compiler, compared at run time).""",
"C14": """Two objects of each of nine types: empty, value, exception, moved-from. Each operation records engagement, value, comparison results and the balance of live objects.""",
"C15": """Wrappers refer to targets with identity and state (call counts); each call records which target ran, with which argument values and categories, and whether arguments were copied.""",
"C16": """A stack of guards is the state; leaving a scope by return, by exception and inside of a destructor called by unwinding are operations. `allow_once` and `countable_resource` are also run by 2-3 logical threads under the deterministic scheduler (see C13).""",
"C17": """Searches are specified by their set-theoretic definition over positions (the least/greatest position with the property); the view sits inside of a larger buffer whose surrounding characters would satisfy the search, so reads past the window are also seen as wrong results. Five character types.""",
"C18": """The view is a window `[a,b)` into a text; every modifier is specified as the new window and the returned window, so "partition" is `returned ++ rest = before` and zero-termination claims are checked against the text.""",
"C20": """Sorting networks are extracted from the running code (comparisons recorded) and TLC checks all 2^n 0-1 vectors on them (the 0-1 principle then covers all inputs); `sort` and `sort_to` by all weak orders of few elements and generated larger inputs.""",
"C21": """Each algorithm is specified as a function of its input sequences: value, position, mutated sequence, sequence of predicate calls where promised. Inputs sit between canaries. Four iterator categories.""",
"C22": """As C21 for the container versions.""",
"C19": """A text is a sequence of character codes; every helper is a function on texts written out in TLA+ (27 range helpers, 26 character classes, number parsing on decimal digit strings compared digit by digit so that no machine integer is involved, splitting and field-wise conversion, the quoted string scanner, command line arguments). An operation runs one helper on every text over a small alphabet up to a length, the text lying inside a larger buffer whose surroundings would satisfy most searches; the driver returns all results in one row, from a contiguous range and from a list, which must agree.""",
"C27": """`Tup` is one specification for four libraries: a tuple is a sequence of values of five kinds, and an operation names an element, a value category and a way of access; its effect says what is yielded and which elements are left moved-from. Each operation also reports the whole tuple afterwards, so a copy where a move was promised, a move of a neighbour or a mixed up position shows at once; a driver that no longer compiles for a shape is a violation too. `KeepN` is a sorted sequence of n with insertion after equals, for both orders and three predicates.""",
"C28": """`Hash` is a table specification: words are byte sequences, and FNV-1a, SipHash-2-4 and MetroHash64 are written out in TLA+ from their published definitions in arithmetic modulo 2^32 and 2^64 (published values are checked as assumptions of the module); an operation hashes a list of texts through one way of calling. `Phash` is the perfect hash table as what it is to a user: a fixed map from the keys it was made of to values, of which every key in a pool is looked up after every operation.""",
"C23": """Three specifications. `Nav`: an adaptor as a sequence and two positions in it, for chunk, circular, counted, reverse, indexed, checked, integer range, iota, pointer, find, function, type-erased and sorted iterators; each operation is one navigation step (`++`, `it++`, `+=`, `next`, a comparison, a difference, a subscript), whose whole observable state (position of both, element under each) is compared. What an adaptor offers (its category) is part of the configuration, so is the step and the chunk length. `IterView`: windows into a shared sequence, with moves, takes and searches. `OutIter`: output adaptors as the sequence of writes they perform.""",
"C24": """A stage is a function on finite sequences, written out in TLA+ for 25 stages; a pipeline is their composition. An operation names one pipeline and stands for all sequences over {1,2,3} up to a length, whose results the driver returns in one row: every single stage over vector, list, forward_list and span; every legal pair; every legal triple of nine stages; 40 terminals and sources. Which stage may follow which is part of the specification (Reverse needs a bidirectional range). Each result is also read by postfix increment, collected, measured, read backwards and by position, and from a stored pipeline used twice, and must be the same every time.""",
"C25": """Two sets of positions of two widths and every operation over them, with the full contents of both reported after every operation; the widths straddle the words (1, 33, 64, 65, 128, 150) and the positions and shifts are those next to word boundaries. The oracle is set algebra restricted to the width; the model never mentions words (except for the digits of the hex form, whose length is a whole number of them).""",
"C26": """A table specification: the oracle computes on byte sequences (schoolbook add, multiply, divide, shift in TLA+), never on machine integers of the implementation. All pairs of 8 bit operands, all type pairs at boundary values, and every helper of the math headers that is exact (integers, powers, exponent and sign of floats, rounding); the driver evaluates each row in one step. It has no long histories: the state is empty and the model checker enumerates the operations.""",
"C29": """A view is a window `[a,b)` into a shared buffer, whose contents are state too (mutable views write through). Each operation gives the new window, the returned window or value, and the refusal where one is promised; `refuse.h` records refusals by termination without ending the run. Mutable and const element versions, the writer as a second kind.""",
"C30": """The state is the variant: alternative, value, or valueless (made by a throwing assignment). Each visit is specified by which alternative runs, in which value category, how often, what it returns, and what is raised for a valueless variant; variants of 1, 2, 10, 11, 16, 17 and more alternatives cover each branch of the unrolled dispatch.""",
"C31": """`Ptr` has two positions into a buffer of four and the buffer; every operation names one member in its const or mutable form, and the driver reports positions (never addresses), so a wrong step, a dangling postfix result or a write to the wrong place is a different result. `not_null` is instantiated with a pointer and with a pointer class, `observer_ptr` with a conversion that has to adjust the address. `Sbo` is empty or one object of a kind; the driver counts live objects, allocations and misaligned objects.""",
"C32": """`Asm` has three parts (nothing, a value, a function) for the factories, one object (class and value) for `poly_var`, and table operations for the stateless ones. Making a value reports its members and the number of functions called, twice for a factory that is not an rvalue.""",
}
DECISIONS = """
* C19: `parse_int` and `parse_unsigned_int` accept at most `digits10` digits (conservative by design) and refuse empty and non-digit text; `from_to` starts at its start delimiter; in the quoted string scanner of `parse_to` the first character after the opening quote always belongs to the contents, empty quotes are refused (explicit in the code) and a quote after a backslash never closes; missing fields are empty and extra ones ignored; `whitespace_splitter` merges runs (pinned by tests; the two documentation comments are swapped); `from_string` converts a prefix as `from_chars` does; what `parse_to` makes of text that is no floating point number, and of the words for booleans, is not decided, nor is the `found` flag of trim functions.
* C28: the two-byte `generic_hash_t<2>` is marked unfinished in the source and is not decided. A character array is a C string to `fnv1a_hash_t` and an array of all its elements to `generic_hash`. A perfect hash table needs distinct keys with distinct hashes; `[]` with an absent key is a precondition.
* C32: making a value before every argument is set is a precondition; a value set by index that does not fit the argument is ignored (as coded); `zip_container` holds iterators, so its containers outlive it; `string_concat` needs at least two strings.
* C31: whether `sbo_storage` keeps an object in its buffer is not decided, only that it is aligned and its memory is returned; the contents of a `not_null` moved from are not decided; `get_out` and the mutable conversions hand out the pointer itself and may null it.
* C27: `forward_as_tuple2` stores rvalues by value (its deduction) and references otherwise; `apply_at` with an index past the end calls nothing and `daw::get` with one aborts; in `keep_n` equal values keep the order they came in (what the ascending code does for every predicate).
* C25: the iterators and `operator[]` of `static_bitset` are declared without a definition and are not decided; positions outside the width are a precondition and are not generated.
* C23: `split_it`, `bit_iterator` and the zip/find_one `operator->` do not compile for any source and are not decided, nor is `iter_view` with a sentinel of another type; reading a circular iterator at its end is a precondition; stepping back from `repeat_n_char_end()` has no defined value; the end of an `iota_range` is the first position not before the last value, and two floating positions are equal within half a step.
* C24: views are lazy and refer to their sources (as `string_view` does): sources live while a view is read, and a stage that owns its result (`Copy`) is followed by stages up to an eager one in the same pipeline. A delimiter at the very end starts no further part. Concat of a zip of unequal lengths yields all elements of every range. Not generated because they do not compile for any source and so mislead nobody: Element and MapApply over lvalue pairs, `concat_view` of lvalue containers, `EnumerateApply` (returns a function). `Print` writes to standard output and `Sample` is random; neither is decided.
* C17: `find_last_of` with a position accepts both conventions on the position past the end (documentation silent).
* C08: breadth-first walk visiting a node more than once when reached twice is pinned by an existing test; the specification allows it.
* C09: after move assignment of `copiable_unique_ptr` the source may hold the old value of the target or nothing; moved-from `poly_value` unspecified.
* C21: `binary_search` on an empty range throws, a precondition; `find_last_of(pred)` is the last of the leading run; `not_equal` requires equal lengths and compares pairwise; `consume_if` calls its function on elements kept after the first match; `partition_range` needs count >= 1; captureless lambdas in `satisfies_*(value, f, g)` are ambiguous and not generated.
* C05: inserting a new key into a full map is a precondition; `daw_hash_table.h` is not covered; positions returned by `static_hash_t` are opaque.
* C06: the index of a key in `fixed_lookup` is any unused index.
* C03: out-of-range `at`/`erase` terminate by design and are not generated.
* C04: which end `pop_front` of a bit queue takes from is pinned by a repository test (the least significant end).
* C14: exception pointers that were moved from are not observed; messages of exceptions are matched loosely; the admitted-types check of `checked_expected_t` is not generated.
* C15: a moved-from `daw::function` is only assigned to; copying a wrapper with a move-only target is not generated; a `const` call of a target with a mutable call operator is allowed.
* C16: move assignment of `ScopeGuard` may run or discard the replaced action; `allow_once::check()` returns whether it was already called; concurrent use runs under the scheduler, sequentially consistent plus happens-before checks.
* The ghost variables (front position of bounded vectors and rings) only diversify generation; nothing is judged on them.
* C26: overflow of a natural number is undefined by its documentation; `are_set` (any of the mask) is pinned by a test; halves may round either way in `round_by`; a plain integer wider than the UInt operand it meets is not judged where it would be truncated on the call; approximations (`sin`, `sqrt`, `nearly_equal`) are not judged.
* C29: positions past the end of a view are refused where the code checks them; those it documents as preconditions are not generated.
* C30: `visit_as` stores the modified representation only when the visitor returned; several variants are visited by nesting.
* C11-C13: the scheduler explores sequentially consistent executions; wrong memory orders are found by the vector clocks (missing happens-before between a call and the destruction, or a store and the return of the wait), not by weak-memory values.
"""
