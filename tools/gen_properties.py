#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Array frees every element and block exactly once, even under faults",
 "Over any sequence of constructing, copying, moving, assigning, resizing, reallocating, filling, swapping and destroying arrays, every element an array creates is destroyed exactly once and every storage block is released exactly once. No operation touches memory outside the array's storage or a slot that holds no live element, every element lies at an address suitable for its type, and a size whose storage cannot be provided is refused with an exception. This stays true when an allocation fails or when constructing, copying or assigning an element throws at any point. (A range or array that is assigned from is not part of the target or of its elements, unless it is the target itself.)",
 ["histories", "fault_sequences", "inputs"],
 "every history of public Array operations over element types with throwing and non-throwing copies, every point at which an allocation or an element construction, copy or assignment fails, every size including unrepresentable ones",
 "test_array only constructs three small arrays and prints two; it never moves, assigns, resizes or destroys under a failing allocator or a throwing element, and cannot see leaks or double destruction.",
 ["include/array.hpp"],
 [("raw storage with placement new and explicit destruction", "include/array.hpp: Array constructors, operator=, resize, reallocate, _destroy_elements")],
 [("size and storage pointer", "number of live elements and the block that holds them", "include/array.hpp: Array::_size, Array::_ptr")],
 ["public Array API", "element constructors/destructors", "operator new/delete"])

prop("C02", "Array is a value sequence and survives failing operations unharmed",
 "After any history of operations (including self-assignment, moves, swaps, range, generator and converting construction, and element values that refer into the array itself) an array's size, elements, iteration order and equality are those of an ordinary sequence subjected to the same history, and checked access throws exactly when the index is not below the size. Copies are independent of their originals. When an allocation or an element operation fails, the exception reaches the caller, no other array changes, construction, resizing, reallocation and assignment from an array of another size leave the target as it was, and filling, range assignment or same-size assignment leaves each element with its old, its default or its new value. (A range or array that is assigned from is not part of the target or of its elements, unless it is the target itself.)",
 ["histories", "fault_sequences", "inputs"],
 "every history of public Array operations with their arguments, and every single or persistent allocation/element failure inside them",
 "The two existing cases only check that a conversion compiles and that printing runs; no history is compared with a model and no failure is ever injected.",
 ["include/array.hpp"],
 [("copy/move/resize/reallocate/fill/assign", "include/array.hpp: Array"), ("checked access", "include/array.hpp: Array::at")],
 [("size and storage", "the sequence held", "include/array.hpp: Array")],
 ["public Array API"])

prop("C03", "SharedArray copies alias one store that dies exactly with the last copy",
 "All copies of a shared array see the same size and the same elements, and a write through one is immediately visible through all of them. The elements and all bookkeeping are released exactly once, when the last copy is destroyed or reassigned and never earlier, over any history of copying, assigning (also from an array held by one of its own elements), self-assigning and destroying. If an allocation or an element operation fails during construction, the exception reaches the caller and nothing is leaked.",
 ["histories", "fault_sequences"],
 "every history of construction, copy, assignment (also to itself or to a copy of itself), element writes and destruction over several handles, with allocation and element failures at every point",
 "No test mentions SharedArray at all.",
 ["include/array.hpp"],
 [("manual reference count", "include/array.hpp: SharedArray copy constructor, operator=, destructor")],
 [("shared count", "number of copies alive", "include/array.hpp: SharedArray::_count")],
 ["public SharedArray API", "operator new/delete", "element destructors"])

prop("C04", "LRU cache keeps exactly the most recently used entries, ages in order",
 "For every capacity and every history of put, get, has_label and age, the cache holds exactly the entries that a least-recently-used policy keeps: never more than its capacity, a put into a full cache evicts the one entry whose put or get lies furthest back, and get returns the value that was put under that label. The ages are always 0,1,...,n-1 in order of last use, and only put and get change them. A copy of a cache holds the same entries in the same order, and each of the two then follows its own history. A zero capacity, a get or age of an absent label and a put of a present label are refused with an exception and change nothing.",
 ["histories", "inputs", "fault_sequences"],
 "every capacity >= 1, label set and interleaved history of operations, including refused ones and histories in which some operations failed and were retried",
 "The unit tests use at most four puts and one get at capacities 1 to 4; none evicts after a get, none evicts twice, none continues after a refused call.",
 ["include/lru_cache.hpp"],
 [("age bookkeeping and eviction", "include/lru_cache.hpp: LRUCache::get, LRUCache::put")],
 [("per-entry age", "how many other entries were used since", "include/lru_cache.hpp: AgeValuePair::age")],
 ["public LRUCache API"])

prop("C05", "A failing LRU cache call changes nothing; held references stay valid",
 "If put or get fails because an allocation, or copying or comparing a label or value, throws, the exception reaches the caller and the cache answers every later call exactly as if the failed call had never been made, including which entry is evicted next. A reference returned by get stays valid and keeps its value as long as its label is present, and it may be passed as the value of a later put even if that put evicts it. Every stored value is destroyed exactly once and nothing is leaked.",
 ["histories", "fault_sequences"],
 "every history of cache operations with an allocation, copy or comparison failure at any point of any of them, followed by arbitrary further operations",
 "Failures inside put cannot be produced with int values and the default allocator, so no unit test executes a failing put or continues after one.",
 ["include/lru_cache.hpp"],
 [("order of ageing, eviction and insertion", "include/lru_cache.hpp: LRUCache::put")],
 [("entries and ages", "cache content", "include/lru_cache.hpp: LRUCache::_elements")],
 ["public LRUCache API", "operator new/delete", "value destructors"])

prop("C06", "Lazy computes once, on first success, and a failed access leaves no trace",
 "A lazy value's generator does not run before the first access; it runs once per access until one run succeeds and never again, and every later access, also through copies made or assigned afterwards, yields the very same object. A run that fails, in the generator or in taking ownership of its result, reports the failure to the caller, leaks nothing and leaves the lazy value as if it had not been accessed. The object is destroyed exactly once, with the last lazy value that shares it (also one replaced by a lazy value inside the object), and copies made before the first success are independent.",
 ["histories", "fault_sequences"],
 "every history of access, copy, move, assignment and destruction over several lazy values, with the generator throwing or an allocation failing at any access",
 "The only test accesses one lazy value once; retry after failure, copies and lifetime are not exercised.",
 ["include/lazy.hpp"],
 [("null check and ownership transfer on access", "include/lazy.hpp: Lazy::operator()")],
 [("cached object", "null until the first success", "include/lazy.hpp: Lazy::_obj")],
 ["Lazy::operator()", "generator calls", "object lifetime"])

prop("C07", "Handles are copy-on-write: no mutation is seen through another handle",
 "A change made through one handle, by any of its mutable accessors or a mutable extract, is never visible through any other handle, even one copied, converted or assigned from it, while read-only access never changes what any handle holds. If cloning or allocating fails during a mutable access, the exception reaches the caller and every handle still holds what it held before. Every implementation object is destroyed exactly once, after the last handle that refers to it is gone, a reference obtained by a mutable access stays valid, and refers to the object of that handle, until the handle is next copied from (or its managed pointer taken), reassigned or destroyed, and a cast or extract to a type the object does not have throws bad_cast.",
 ["histories", "fault_sequences"],
 "every history of creating, copying, assigning, converting, casting, reading, mutating and destroying handles, with clone and allocation failures at any point",
 "No test includes handle.hpp; build.sh only parses it.",
 ["include/handle.hpp"],
 [("clone before mutable access", "include/handle.hpp: Handle::make_unique"), ("checked downcasts", "include/handle.hpp: dynamic_handle_cast, dynamic_handle_extract, dynamic_pointer_extract")],
 [("shared implementation pointer", "implementation object, possibly shared by several handles", "include/handle.hpp: Handle::_ptr")],
 ["public Handle API", "clone calls", "implementation destructors"])

prop("C08", "Threads with separate objects, or only reading shared ones, never interfere",
 "Threads that each work on their own arrays, lists, sets, maps, caches, lazy values, handles, binary words, stopwatches, coded variants and text conversions obtain exactly the results they would obtain alone, under every interleaving, with no data race. The same holds when handles or already evaluated lazy values in different threads share one underlying object through copies, and when several threads only read the same constant container. An object shared through such copies is destroyed exactly once, after its last user.",
 ["schedules", "histories"],
 "every interleaving, at the granularity of single memory accesses, of two or more threads running arbitrary histories on disjoint objects, on copies sharing an underlying object, or reading common constants",
 "All unit tests are single-threaded, and a real multi-threaded test would sample a handful of interleavings it does not control.",
 ["include/handle.hpp", "include/lazy.hpp", "include/array.hpp", "include/lru_cache.hpp", "include/container.hpp", "include/binary_word.hpp", "include/stopwatch.hpp", "include/stlio.hpp"],
 [("no hidden mutable state; atomically counted sharing", "all headers: objects own their state, shared_ptr in Handle and Lazy")],
 [("shared implementation object", "only shared mutable state between handles", "include/handle.hpp: Handle::_ptr")],
 ["per-thread results", "memory accesses of all threads"])

prop("C09", "Randomisers draw uniformly in their interval, from any threads at once",
 "Every value drawn from a randomiser lies in its closed interval, for every interval of finite width, every value type the standard distributions admit and every state of the entropy source, and over many draws every part of the interval (for integers every value) comes up with equal frequency. Threads that draw concurrently, each from its own randomiser, do so without a data race under every interleaving, and their draws are as uniform as those of a single thread.",
 ["schedules", "histories", "inputs"],
 "every interval, value type, entropy reading and number of draws, and every interleaving of several threads drawing from their own randomisers",
 "test_randomiser draws ten values in one thread and prints them without any assertion.",
 ["include/randomiser.hpp"],
 [("process-wide engine behind all randomisers", "include/randomiser.hpp: RANDOM_GENERATOR, RandomiserBase::get")],
 [("random engine", "state from which all draws are made", "include/randomiser.hpp: RANDOM_GENERATOR")],
 ["get() of both randomisers", "memory accesses of all threads"])

prop("C10", "Random generators are seeded from both entropy and time",
 "Two random generators created under different readings of the system entropy source produce different streams even if the clock stands still, and two created at different times (at least a microsecond and less than an hour apart, by clocks that did not jump) produce different streams even if the entropy source is stuck at one value. The stream of a generator is a function of what its own construction read from entropy and clock, so later clock jumps or entropy failures never change it. If the entropy source fails during construction, the failure is reported by an exception to whoever constructs it.",
 ["fault_sequences", "inputs", "histories"],
 "every pair of entropy readings and construction times, including stuck, repeating and failing entropy sources and stuck or jumping clocks",
 "The real entropy source and clock cannot be controlled from a unit test; the existing test constructs generators and ignores them.",
 ["include/randomiser.hpp"],
 [("seed mixes entropy with the clocks", "include/randomiser.hpp: RandomGenerator::RandomGenerator")],
 [("engine seed", "initial engine state", "include/randomiser.hpp: RandomGenerator::_engine")],
 ["RandomGenerator::engine()"])

prop("C11", "Stopwatch reports true elapsed time whatever the wall clock does",
 "The duration a stopwatch reports is the time that really elapsed between its last (re)start and its last click, truncated to its unit, and its elapsed seconds agree with that duration; it is never negative and is unaffected by forward or backward jumps of the wall clock. Before the first click after a (re)start it is exactly zero, and it changes only through click and restart, not by reading it or by time passing. Stopwatches are independent of each other.",
 ["histories", "fault_sequences", "inputs"],
 "every history of restart, click and read over several stopwatches and units, with arbitrary delays, stalls and wall-clock jumps between and inside the calls",
 "The only test sleeps 10 ms of real time and checks a lower bound; clock steps, long spans, re-clicks and restarts are never seen.",
 ["include/stopwatch.hpp"],
 [("choice of clock and stored time points", "include/stopwatch.hpp: Stopwatch::ResolutionType, restart, click, duration")],
 [("start and click time points", "interval measured", "include/stopwatch.hpp: Stopwatch::_initial, _clicked")],
 ["duration()", "elapsed_seconds()"])

prop("C12", "Reading a list from a stream is exact or fails loudly, under any delivery",
 "Reading a delimited list (default [a,b,c], or with other non-blank delimiters, the separator differing from the other two) into a container either succeeds with exactly the listed items in order, replacing the old content and consuming the text up to and including the closing delimiter and nothing after it, or raises an exception. The outcome does not depend on how the bytes arrive in pieces, and truncated, malformed or wrongly delimited text or a read error at any byte never yields a success. On failure the container holds nothing but leading items of the list that were read correctly. Either way the format settings and the exception mask of the stream are what they were.",
 ["inputs", "fault_sequences", "schedules"],
 "every text, item type, delimiter set, split of the text into deliveries, position of end-of-file or read error, stream exception mask and allocation failure",
 "No unit test reads from a stream at all.",
 ["include/stlio.hpp"],
 [("character-wise parser with end-of-file and failure checks", "include/stlio.hpp: read_sequence, operator>>(istream&, vector&)")],
 [("current delimiter character", "parser state", "include/stlio.hpp: read_sequence")],
 ["container content, stream position and exceptions after a read"])

prop("C13", "Printed text is exact; an output fault can only cut it off, visibly",
 "Writing any array, list, set, map, pair, tuple, delimited sequence, (pointer or coefficient) map sequence or writable object produces exactly its documented textual form, whatever pieces the sink accepts, and leaves the object and the stream's format settings unchanged. If the sink fails at any byte (short write, error, full device), the bytes delivered are a prefix of that form and the stream reports failure; it reports success only if everything was delivered. A list written to a stream reads back equal; to_string and to_str give the same text as a string.",
 ["inputs", "fault_sequences", "histories"],
 "every content (including empty, single, nested and large), delimiter choice, stream format setting, sink chunking and write fault position",
 "The tests print two int arrays to a healthy stdout and never look at the text.",
 ["include/stlio.hpp", "include/container.hpp", "include/writable.hpp", "include/string.hpp"],
 [("sequence writers and stream inserters", "include/stlio.hpp: write_*; include/container.hpp: operator<<; include/writable.hpp: WritableInterface, Writer")],
 [], ["bytes received by the sink", "stream state"])

prop("C14", "Binary words parse, print and compare exactly, on healthy and faulty streams",
 "A binary word printed to a stream reads back equal (bits as 0/1, the empty word as e), both notations 01011 and [0,1,0,1,1] are accepted, and reading stops right after the word, leaving the following characters unread and the stream usable; a word ended by end of input counts as read successfully and the result never depends on how the bytes arrive. Appending (also of a word to itself), erasing a prefix, lexicographic order, prefix and subword tests agree with those of the plain bit string, and byte count is the length in bits over eight, rounded up. If a stream or allocation fails on the way, the word holds only leading bits of what was being read or appended after its old content, and printing leaves the stream's format settings as they were.",
 ["histories", "inputs", "fault_sequences"],
 "every history of word operations, text, delivery split, end-of-file or error position and allocation failure",
 "binary_word.hpp is included by no test and did not even compile at the pinned commit.",
 ["include/binary_word.hpp", "include/stlio.hpp"],
 [("parser and printer", "include/binary_word.hpp: operator>>, operator<<"), ("bit string operations", "include/binary_word.hpp: BinaryWord")],
 [("bits", "the word", "include/binary_word.hpp: BinaryWord (vector<bool>)")],
 ["public BinaryWord API", "stream state and position"])

prop("C15", "Lists keep order and lose nothing, also when appended to themselves",
 "Appending, concatenating, catenating, converting and elementwise or applied transformation of lists and linked lists yield exactly the items of the arguments (or their images) in order, also when a list is appended to itself or an item of a list is appended to that list, and every such call terminates. If an allocation, an item copy or the supplied function fails, the exception reaches the caller, arguments are unchanged, a list being extended holds its old items followed by leading items of what was being added, and nothing is leaked. duplicate_elements and unique_elements tell exactly which items occur more than once.",
 ["histories", "fault_sequences", "inputs"],
 "every history of list operations including aliased arguments, with allocation, copy and callback failures at any point",
 "Only make_list of a three-element set is tested; self-append, failing callbacks and allocation failure never occur.",
 ["include/container.hpp"],
 [("append/concatenate loops, catenate, apply, elementwise", "include/container.hpp: List, LinkedList and free functions")],
 [("items", "the sequence", "include/container.hpp: List (std::vector)")],
 ["public List/LinkedList API"])

prop("C16", "Set operations compute the mathematical result or fail without side effects",
 "Adjoin, join, remove, restrict, intersection, difference, contains, subset, disjoint and element-wise apply on sets agree with set algebra for all arguments (the free subset(a,b) tells whether b has all of a, the member a.subset(b) whether a has all of b), including a set combined with itself and elements referring into the set. If an allocation, an element copy or comparison fails, the exception reaches the caller, argument sets are unchanged, and a set being modified is still a set that lies between its old content and the intended result. Nothing is leaked.",
 ["histories", "fault_sequences", "inputs"],
 "every history of set operations over every argument pair including aliased ones, with allocation, copy and comparison failures at any point",
 "No unit test calls any set operation except construction.",
 ["include/container.hpp"],
 [("set members and free functions", "include/container.hpp: Set, join, intersection, difference, remove, restrict, subset, disjoint")],
 [("elements", "ordered set", "include/container.hpp: Set (std::set)")],
 ["public Set API"])

prop("C17", "Maps: present keys win, absent keys are refused, failures lose nothing",
 "Insert, adjoin and join never overwrite the value of a key already present, checked and constant lookup of an absent key throws and changes nothing while lookup of a present key yields its value, and keys, values, key removal, key restriction and value-type conversion agree with the finite map they are applied to. If an allocation, a copy or a key comparison fails, the exception reaches the caller, argument maps are unchanged, every entry that was present keeps its value unless it was to be removed, and any entry added is one that was being added. Nothing is leaked.",
 ["histories", "fault_sequences", "inputs"],
 "every history of map operations including refused lookups and aliased arguments, with allocation, copy and comparison failures at any point",
 "The tests look up one absent and one present key, convert one map and restrict one map.",
 ["include/container.hpp"],
 [("checked access", "include/container.hpp: Map::get, Map::value, Map::operator[] const"), ("insertion and restriction", "include/container.hpp: Map::insert, adjoin, join, restrict_keys, remove_keys")],
 [("entries", "finite map", "include/container.hpp: Map (std::map)")],
 ["public Map API"])

prop("C18", "A violated assertion always raises; a satisfied one has no effect",
 "Control never passes a failed assertion or precondition (plain, with message, equality, fail, and in debug builds the debug forms): an exception is raised, even when memory runs out while the message is built, and otherwise it is a runtime_error whose text contains the failed expression, the source location and the given message. A satisfied one throws nothing, writes nothing, allocates nothing and evaluates its condition exactly once and its message not at all; a failed one evaluates its condition (unless it is an equality, whose operands are shown too) exactly once and its message at most once; with debug checks compiled out the debug forms evaluate nothing. Each warning, error or notification puts its line on standard error every time, the once-only and deprecation forms only the first time their site is reached, also when several threads reach it at once; each evaluates its message at most once, and a failing standard error never turns into a failure of the program.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every history and every interleaving in several threads of satisfied and violated checks and warnings, allocation failure at any point of the failure path, any fault of standard error, debug and release configuration",
 "Tests only see that some failing precondition throws something; the message, the failure path under memory exhaustion, and the warning forms are untested.",
 ["include/macros.hpp"],
 [("throwing macros", "include/macros.hpp: HELPER_THROW, HELPER_ASSERT*, HELPER_PRECONDITION*, HELPER_FAIL_MSG"), ("once-only flag", "include/macros.hpp: HELPER_WARN_ONCE, HELPER_DEPRECATED")],
 [("first-time flag", "whether the site already warned", "include/macros.hpp: HELPER_WARN_ONCE")],
 ["exceptions and their text", "standard error"])

prop("C19", "The test framework's verdict counts each failing check once, whatever fails",
 "Over any sequence of checks, the failure count grows by exactly one for each check that fails (wrong value, comparison, missing or wrong exception, exception out of a tried statement or a called test case) and by nothing for a check that passes, and test cases after a failing or throwing one still run. The count does not depend on standard output or standard error working, and while they work every failure also puts a line starting with ERROR: on standard error and no passing check does. An expression checked for its truth, value, equality or order is evaluated exactly once when the check passes (the comparison and predicate checks, which also print their arguments, are excepted), and a skipped case is counted as skipped and does not run.",
 ["histories", "fault_sequences"],
 "every sequence of passing, failing and throwing checks and test cases, with write faults on standard output and standard error at any byte",
 "The framework is used by the tests but nothing tests the framework: a macro that stopped counting would make every suite pass.",
 ["include/test.hpp"],
 [("counting macros", "include/test.hpp: HELPER_TEST_*")],
 [("failure and skip counters", "verdict of the test program", "include/test.hpp: HELPER_TEST_FAILURES, HELPER_TEST_SKIPPED")],
 ["HELPER_TEST_FAILURES", "HELPER_TEST_SKIPPED", "standard output and error"])

prop("C20", "Printing a stack trace never harms the program it is called from",
 "Requesting a stack trace returns normally at any call depth and from several threads at once, and leaves standard error able to print what the program writes next, also when frames have no symbol name, when symbol lookup, demangling or memory allocation fails on the way, or when standard error rejects the output. In builds with traces enabled it prints one line per frame, which names the function of the frame (demangled if it can be) where its name is known; in builds without it prints nothing; and no request leaks memory.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "every call depth, every interleaving of threads that request one, every allocation or symbol-lookup failure inside the trace, every standard error fault, both build configurations",
 "The tests call the empty function of the default build twice and check nothing; the real implementation is never compiled by the test suite.",
 ["src/stack_trace.cpp", "include/stack_trace.hpp"],
 [("frame symbolisation and printing", "src/stack_trace.cpp: stack_trace")],
 [], ["standard error and its state", "memory in use"])

prop("C21", "Visiting a coded variant calls the visitor with exactly its own alternative",
 "A coded variant constructed from an alternative or from that alternative's code reports that code and holds exactly that alternative; copies, moves and assignments carry both over. accept calls the given visitor exactly once, with that alternative, and returns what the visitor returns (a reference as that same reference, an object that can only be moved, or nothing), for every number of alternatives up to sixteen and every integral or enumerated code type. A visitor may visit further variants on the way. If the visitor, or making the alternative or the result, throws, the exception reaches the caller and the variant is unchanged and usable. Several threads may visit variants of their own, or the same constant variant, or with the same constant visitor, at once.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every list of up to sixteen alternatives and every code among them, every history of visits, every failure inside a visit and every interleaving of threads that visit",
 "variant.hpp and variant.inl.hpp are included by no test.",
 ["include/variant.hpp", "include/variant.inl.hpp"],
 [("code switch", "include/variant.inl.hpp: coded_visit")], [], ["accept", "code", "holds_alternative"])

prop("C22", "Iterator facades and index ranges obey the iterator laws",
 "Iterators built on the facades satisfy the random-access (or forward) iterator laws relative to the position they model (i+n-n==i, (i+n)-i==n, i<j iff j-i>0, and so on) at every position and offset the difference type can represent, and dereference to the item of their position; pair iterators move both parts and are equal iff both parts are; iterating a range from start to stop visits exactly start,...,stop-1 in order with matching size and indexing. If the position's own operation throws, the exception reaches the caller and every iterator stays where it was (an iterator to be moved whose copy or assignment throws is at its old or its new position). All this also holds when several threads use iterators of their own or read the same constant iterators at once.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every position, offset and range bound, every history of iterator operations, every failure inside one and every interleaving of threads",
 "iterator.hpp and range.hpp are included by no test.",
 ["include/iterator.hpp", "include/range.hpp"],
 [("facade operators", "include/iterator.hpp: IteratorFacade"), ("range", "include/range.hpp: Range, RangeIterator")], [], ["iterator operators"])

prop("C23", "Tuple access gives the very components; the complement of indices is exact",
 "get_first to get_fifth give the very component of a tuple, pair or array, with its constness and value category; make_lpair and make_ltuple refer to the very variables they are given, so that assigning to them assigns to each of those; and the complement of a sorted index set below n is exactly the remaining indices in increasing order, whatever n, leaving the given set as it was. If an allocation or an assignment of a component fails on the way, the exception reaches the caller, each variable has its old or its new value, nothing else changed and nothing leaks. Several threads may do this with objects of their own, or read the same constant tuple or index set, at once.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every tuple and index set, every history of accesses and assignments, every failing allocation or component assignment, every interleaving of threads",
 "None of this is asserted by a test.",
 ["include/tuple.hpp", "include/array.hpp"],
 [("access and reference tuples", "include/tuple.hpp"), ("complement", "include/array.hpp: complement")], [], ["references returned", "variables assigned", "complement"])

prop("C24", "Type predicates and index queries classify every type list correctly",
 "The type predicates, concepts and index queries on type lists (IsOneOf, IndexOf, AreAllSame, IsInvocable, OneOf, SameAs, and so on) hold for exactly the types and type lists they name.",
 ["inputs", "programs"],
 "every type and type list",
 "They are used by the headers and asserted by no test.",
 ["include/metaprogramming.hpp"],
 [("compile-time predicates", "include/metaprogramming.hpp")], [], ["which programs compile"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
