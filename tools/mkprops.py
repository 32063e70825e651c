#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text is easy to review)."""
import json, os
H = "include/itlib/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [H + f for f in files], "mechanism": [{"name": n, "where": H + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SCHED_WHY = "Only a handful of OS-chosen interleavings are ever sampled by the (mostly single-threaded) unit tests; the guarantee quantifies over every interleaving and every legal weak-memory outcome."
FAULT_WHY = "The unit tests run a few fixed call sequences in which no allocation, element copy or callback ever fails; the guarantee quantifies over every operation history and every point at which one of those fails."

p("C01", "atomic_shared_ptr_storage operations are linearizable",
  "Any concurrent mix of construction with an initial pointer, load, store, exchange and compare_exchange on one atomic_shared_ptr_storage behaves as if the operations took effect one at a time, in an order consistent with real time, on a single shared_ptr cell: load and exchange return the pointer that was current, compare_exchange succeeds exactly when the current pointer equals the expected one (same pointer, same owner), replaces it only then, and otherwise writes the current pointer into the expected argument. No store, exchange or successful compare_exchange is ever lost, duplicated or half-applied, and a pointer returned always carries the ownership that belongs to it.",
  ["schedules", "histories", "configurations"],
  "every interleaving of 2-4 threads' operations on shared storages (also null pointers, ABA re-stores of the same pointer, aliased pointers with equal address but other owner), both holder implementations (C++11/17 spinlock holder, C++20 std::atomic holder)",
  SCHED_WHY, ["atomic_shared_ptr_storage.hpp"],
  [("spinlock-protected holder", "atomic_shared_ptr_storage.hpp"), ("public storage wrapper", "atomic_shared_ptr_storage.hpp")],
  "invoke/return history of storage operations, pointer and owner identity of every returned shared_ptr")

p("C02", "atomic_shared_ptr_storage: safe publication, lifetime and progress",
  "An object published through an atomic_shared_ptr_storage is seen fully constructed by every thread that obtains it from there, without any data race, stays alive while anyone (the storage included) owns it, and is destroyed exactly once, by the time its last owner and the storage are gone. Every operation completes in a bounded number of steps once other threads' operations can proceed, on every success and failure path, including when the destructor of a value it displaces (or of the overwritten expected value) itself uses the same storage.",
  ["schedules", "histories"],
  "every interleaving of publishers, readers and replacers of payload objects on one storage under the C++ memory model, with payload destructors that re-enter the storage",
  SCHED_WHY, ["atomic_shared_ptr_storage.hpp"],
  [("spinlock acquire/release", "atomic_shared_ptr_storage.hpp"), ("displaced value released outside the lock", "atomic_shared_ptr_storage.hpp")],
  "data races on payload and holder memory, payload construction/destruction registry, scheduler progress")

p("C03", "strong_try_rec_mutex: exclusive, recursive, never spuriously refused",
  "At any time at most one thread owns a strong_try_rec_mutex: try_lock succeeds if and only if the mutex is free or already owned by the calling thread (never failing spuriously), it is released for other threads exactly when the owner has called unlock as many times as it successfully locked, and whatever one owner wrote is visible without a data race to the next owner. try_lock and unlock never block for longer than other threads' calls on the same mutex take.",
  ["schedules", "histories"],
  "every interleaving of try_lock/unlock by 2-4 threads, recursion depths, hand-overs of ownership, thread exit and several mutexes at once",
  SCHED_WHY, ["mutex.hpp"], [("owner/depth under an inner mutex", "mutex.hpp")],
  "linearizability of try_lock/unlock results against a sequential owner+depth model, data races on guarded data")

p("C04", "data_mutex gives access only under the right lock, released exactly once",
  "The guards of data_mutex (unique_lock, try_unique_lock, shared_lock, try_shared_lock and the const forms) hold the associated mutex, exclusively or shared as named, for exactly as long as they give access to the data: writers are exclusive, readers may share, a try guard never waits for the mutex and a failed one converts to false, gives no access and releases nothing, moving a guard transfers the single obligation to unlock, and each successful acquisition is released exactly once, in its own mode, also when the scope is left by an exception. If a lock or try_lock operation of the mutex itself throws, the exception reaches the caller and nothing is unlocked.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of guard acquisitions, moves and releases by 2-4 threads over several mutex types (plain, recursive, shared, failing), with try_lock refusals and exceptions injected into the mutex and the guarded scope",
  SCHED_WHY, ["data_mutex.hpp"], [("guard types with RAII unlock", "data_mutex.hpp"), ("guard move constructor", "data_mutex.hpp")],
  "calls received by the user-supplied mutex, data races on the guarded data, reader/writer occupancy")

p("C05", "atomic_relaxed_counter loses no update and returns exact values",
  "Concurrent ++, --, +=, -=, store, assignment and load on an atomic_relaxed_counter are each indivisible: no update is lost, duplicated or torn, pre-forms and compound forms return the value the operation itself produced and post-forms the value it replaced, in the arithmetic of the counter's own type (including wrap-around), for every integral type. Copying a counter yields an independent counter holding a value the source held, and no operation is a data race.",
  ["schedules", "histories", "configurations"],
  "every interleaving of 2-4 threads' operations on shared counters of signed/unsigned 8..64-bit types starting from arbitrary values",
  SCHED_WHY, ["atomic.hpp"], [("relaxed read-modify-write operators", "atomic.hpp")],
  "linearizability of operation results against a sequential modular-arithmetic counter")

p("C06", "time_t conversions are thread-safe and exact; strftime always fits",
  "gmtime and localtime return, for every timestamp and regardless of other threads converting times concurrently, exactly the broken-down UTC/local time of that timestamp (from_gmtime/from_localtime being their inverse, normalising their argument and heeding what it says about daylight saving time), now() is the system clock's current value even when that clock jumps, and duration arithmetic and comparison agree with arithmetic on seconds since the epoch. strftime returns exactly what std::strftime formats, at full length whatever that length is (including an empty result), terminates for every format, and reports allocation failure only as std::bad_alloc.",
  ["schedules", "fault_sequences", "inputs"],
  "interleavings of conversions in 2-4 threads, arbitrary timestamps and clock jumps, formats with arbitrary output length, allocation failure at any point",
  "The tests convert a few fixed timestamps in one thread, never exceed strftime's first buffer by much, and never move the clock or fail an allocation.",
  ["time_t.hpp"], [("re-entrant tm conversions", "time_t.hpp"), ("growing strftime buffer", "time_t.hpp")],
  "returned std::tm / timestamps / strings against independent calendar arithmetic, data races inside simulated libc statics")

p("C07", "enable_shared_from / make_ptr pointers share the one true ownership",
  "Every pointer obtained from an object derived from enable_shared_from (shared_from_this, weak_from_this, shared_from, weak_from, const or not) shares ownership with the object's existing owners and points where asked: it keeps the whole object alive, weak forms expire exactly when the last owner goes, across threads too, the object is destroyed exactly once, and an object without an owner throws std::bad_weak_ptr or yields an empty weak pointer but never a second owner (weak_from_this, with C++17, always the empty one). make_shared and make_unique hold exactly one copy (or moved value) of their argument or throw leaving nothing behind and the argument intact, and make_aliased shares its owner's lifetime, or is null when the owner has no use count.",
  ["schedules", "fault_sequences", "configurations"],
  "interleavings of last-owner release with pointer creation and weak locking in 2-4 threads, C++11/17/20, allocation and copy-constructor failures at any point",
  SCHED_WHY, ["shared_from.hpp", "make_ptr.hpp"], [("shared_from aliasing", "shared_from.hpp"), ("null-safe aliasing", "make_ptr.hpp")],
  "object registry (constructed/destroyed exactly once), use counts and owner identity, leaked or foreign-freed blocks")

p("C08", "Library types are thread-compatible: const use and distinct objects never race",
  "Any number of threads may concurrently use const operations of one shared object, and any operations of objects that are not shared, of any itlib type or function (containers, any, expected, bitset, views, string and algorithm utilities, streams over own buffers, functions, generators), without synchronisation: there is no data race, and each thread observes exactly the results it would observe alone.",
  ["schedules", "configurations"],
  "every interleaving of 2-4 threads performing const reads of shared objects and arbitrary operations on private objects (first use included) of each library type",
  SCHED_WHY, ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "any.hpp", "expected.hpp", "dynamic_bitset.hpp", "span.hpp", "stride_span.hpp", "poly_span.hpp", "memory_view.hpp", "strutil.hpp", "qalgorithm.hpp", "mem_streambuf.hpp", "rstream.hpp", "ufunction.hpp", "generator.hpp", "pmr_allocator.hpp", "utility.hpp"],
  [("no hidden shared mutable state", "any.hpp")],
  "data races in library code and results compared with a solo execution")

p("C10", "small_vector equals a sequence and survives failing allocation and elements",
  "Under any history of operations a small_vector holds exactly the element sequence std::vector would hold (also when a single-element argument is itself an element of the vector; the same for returned iterators and references, forward and reverse iteration, comparisons, copies, moves (which leave their source empty) and swaps, and for which allocator a construction or copy ends up with; elements stay where they are while growing within the capacity; out-of-range positions throw std::out_of_range), always contiguous, with capacity not below size, its elements in the static buffer only while they fit there, and reserve, revert_to_static, shrink_to_fit and automatic reverting on erase, pop_back and clear behaving as documented; every element is constructed and destroyed exactly once and every block goes back to the allocator that produced it. If an allocation or an element constructor, copy or assignment throws, the exception reaches the caller, nothing is leaked, destroyed twice or read uninitialised, and the vector stays valid and usable (unchanged if the operation was reserve, push_back or emplace_back; an rvalue there is no memory for is not consumed).",
  ["histories", "fault_sequences", "configurations"],
  "every history over two or more vectors, for static capacities and revert thresholds incl. 0, trivially and non-trivially copyable and move-only elements, stateful allocators, a failure at any allocation or element operation; nothrow-movable elements; what std::vector forbids (ranges into the vector itself, assign of an own element) excluded",
  FAULT_WHY, ["small_vector.hpp"], [("static/dynamic buffer choice", "small_vector.hpp"), ("grow_at/shrink_at", "small_vector.hpp"), ("copy/move/assign/swap", "small_vector.hpp")],
  "contents/size/capacity/iterators after each operation, element life-cycle registry, allocator ledger")

p("C11", "static_vector equals a bounded sequence and survives failing elements",
  "Under any history of operations that stay within its capacity a static_vector holds exactly the element sequence std::vector would hold (also when a single-element argument is itself an element of the vector), including returned iterators and references, forward and reverse iteration, comparison (also between capacities), copy, move (which leaves its source empty), assign and swap, and never allocates memory; an operation that would exceed the capacity, by whatever amount, throws std::out_of_range leaving a valid vector (unchanged for push_back, emplace_back, insert, emplace and resize) and an rvalue argument not consumed. If an element constructor, copy or assignment throws, the exception reaches the caller, every element is still constructed and destroyed exactly once, and the vector stays valid and usable.",
  ["histories", "fault_sequences", "configurations"],
  "every history over several vectors of capacities 1..8+, trivially and non-trivially copyable and move-only elements, a failure at any element operation; nothrow-movable elements; what std::vector forbids (ranges into the vector itself, assign of an own element) excluded",
  FAULT_WHY, ["static_vector.hpp"], [("insert_at/erase_at shifting", "static_vector.hpp"), ("bounds checking", "static_vector.hpp")],
  "contents after each operation, element life-cycle registry, absence of allocator traffic")

p("C12", "pod_vector equals a byte-exact sequence for every allocator behaviour",
  "Under any history of operations a pod_vector holds exactly the element sequence std::vector would hold (also when a single-element argument is itself an element of the vector; values of recast copies and takes being the same bytes; a moved-from vector being empty; reserve, resize and shrink_to_fit reporting exactly whether the elements were moved), with results independent of whether the allocator can expand blocks, moves them, or has no realloc; it accesses only memory its allocator gave it, honours the element type's alignment, and gives every block back exactly once to an allocator equal to the one that produced it. If an allocation fails, std::bad_alloc reaches the caller, nothing leaks or is freed twice, and the vector stays valid (unchanged for growth operations such as reserve, push_back, insert and enlarging resize).",
  ["histories", "fault_sequences", "configurations"],
  "every history over several pod_vectors incl. moves, swaps and take/recast between element types, allocators with and without realloc/expand/size queries, stateful allocators, over-aligned elements, a failed or refused allocator call at any point; what std::vector forbids (ranges into the vector itself, assign of an own element) excluded",
  FAULT_WHY, ["pod_vector.hpp"], [("safe_grow/safe_realloc", "pod_vector.hpp"), ("recast_take_from/recast_copy_from", "pod_vector.hpp"), ("pod_allocator_impl", "pod_vector.hpp")],
  "contents after each operation, allocator ledger (block, size, allocator identity), guarded memory")

p("C13", "flat_map and flat_set stay sorted, unique and model-equal under faults",
  "Under any history of operations a flat_map/flat_set contains exactly the keys (and mapped values) that a std::map/std::set with the same comparator would contain, always sorted and free of equivalent keys, with the same results for insert, emplace, erase, find, lower_bound, upper_bound, equal_range, count, at (throwing std::out_of_range exactly when the key is absent), operator[], comparison, copy, move, swap and construction from unsorted data (of entries with equal keys one is kept), on every underlying container, with stateful comparators and heterogeneous keys. If the comparator, an element operation or an allocation throws, nothing leaks and the map or set is still sorted, unique and usable; a failed lookup, insert, emplace or operator[] leaves its contents unchanged.",
  ["histories", "fault_sequences", "configurations"],
  "every history over several maps/sets on std::vector, small_vector and static_vector, stateful comparators, a failure at any comparison, element copy or allocation",
  FAULT_WHY, ["flat_map.hpp", "flat_set.hpp"], [("lower_bound based insertion", "flat_map.hpp"), ("sort + unique construction", "flat_set.hpp")],
  "iteration order and contents after each operation compared with std::map/std::set, element life-cycle registry")

p("C14", "any and pmr_allocator keep one value, one owner, one resource",
  "Under any history of construction, emplace, assignment, copy (also from an any with another allocator), move, self-assignment, reset and any_cast, an any holds exactly the value and type last given to it (a copy of it, never a reference, also if what is given lives inside the value held; an rvalue any_cast moves it out; casts to any other type yield null or throw std::bad_cast, as does copying a non-copyable value), every held value is constructed and destroyed exactly once at correctly aligned storage, and every block is returned with its original size and alignment to the allocator or memory resource it came from. If a value's copy or the allocation fails, the exception reaches the caller, nothing leaks, and the destination is a valid any (keeping its old value if it was being assigned); pmr_allocator forwards every request to the resource it was given, compares equal exactly when the resources do, and never touches another resource.",
  ["histories", "fault_sequences", "configurations"],
  "every history over several anys with small, large, over-aligned and throwing values, default and stateful (pmr) allocators, a failure at any allocation or value copy",
  FAULT_WHY, ["any.hpp", "pmr_allocator.hpp"], [("holder cloning and allocation", "any.hpp"), ("memory_resource forwarding", "pmr_allocator.hpp")],
  "contained values/types after each operation, value life-cycle registry, ledger of each memory resource")

p("C15", "expected always holds exactly one of value or error, alive exactly once",
  "At every moment an expected<T, E> (also for T a reference or void, and E void or unexpected()) holds exactly one of a value or an error, has_value and operator bool say which, accessors (value, *, ->, error, value_or) give that very object, and construction from values, lvalue or rvalue errors and unexpected(), move construction, assignment within and across states, swap, and (for E void) copying, clear and emplace transfer it faithfully (value_or gives the held value exactly, whatever the type of the default), leave lvalue arguments intact, move rvalue ones and construct and destroy each contained object exactly once. If a constructor or assignment of the contained types throws, the exception reaches the caller, nothing leaks or is destroyed twice, and the expected can still be inspected, assigned and destroyed.",
  ["histories", "fault_sequences", "configurations"],
  "every history over several expecteds of every specialization with throwing copies of values and errors at any point, throwing moves",
  FAULT_WHY + " The repository's expected tests are not even part of the runnable baseline here.",
  ["expected.hpp"], [("tagged union state switch", "expected.hpp"), ("T& / void specializations", "expected.hpp")],
  "state and contents after each operation, life-cycle registry of values and errors")

p("C16", "generator coroutines resume, finish, throw and die exactly once",
  "Under any history of next(), iteration, moves, early abandonment and destruction, a generator yields exactly the sequence its coroutine body produces, in order, each by value or as the very object referenced, resuming the body only when the consumer asks for the next element, then reports done; an exception leaving the body reaches the consumer of that step exactly once and the generator is finished afterwards; a finished one gives nothing more, by next() or iteration, and is never resumed. Whenever it is abandoned, moved-from or fails (including failure to allocate the coroutine frame), every local, argument and yielded value is destroyed exactly once and the frame is freed exactly once.",
  ["histories", "fault_sequences", "crash_points"],
  "every interleaving of resumption, cancellation, move and destruction of several generators (nested and re-entrant too), a body exception or allocation failure at any step",
  FAULT_WHY + " The generator tests are not part of the runnable baseline here.",
  ["generator.hpp"], [("promise/next/unhandled_exception", "generator.hpp"), ("handle ownership on move/destroy", "generator.hpp")],
  "yielded sequence, life-cycle registry of frame objects, allocation ledger")

p("C17", "dynamic_bitset equals a bit sequence under any history and failure",
  "Under any history of construction, set, reset, flip, bit references, iteration, resize, reserve, push_back, assign, append (also to itself), range copy, copy and move, a dynamic_bitset agrees bit for bit with a plain sequence of booleans of the same size, for every word type; any, all and none follow from exactly those bits, bits beyond the size never influence a result, and bits appearing through a resize are zero. If an allocation fails the exception reaches the caller, nothing leaks and the bitset keeps its previous size and bits.",
  ["histories", "fault_sequences", "inputs"],
  "every history over several bitsets of arbitrary (also zero, word-boundary and shrinking/growing) sizes and offsets, buffer types, a failed allocation at any point",
  FAULT_WHY, ["dynamic_bitset.hpp"], [("word-wise bit storage and tail masking", "dynamic_bitset.hpp"), ("cross-word range copy", "dynamic_bitset.hpp")],
  "all bits and aggregate queries after each operation")

p("C18", "mem_ostreambuf keeps every acknowledged character, across failures",
  "Every character an output stream over a mem_ostreambuf accepts is, from then on, in the buffer at the position it was written to until overwritten or cleared, whatever mix of single-character, bulk and formatted writes, position queries, seeks within the written range, peeks, clears, container extractions and reuse happened before, for every growable container and character type. The put offset always equals the write position, and the container handed out by get_container holds exactly the characters before it, leaving the streambuf empty and reusable; a copy of a streambuf has the same characters and offset in memory of its own, and moving one passes them on and leaves it empty and reusable. If the container cannot grow (allocation failure, full fixed-capacity container) the stream reports failure or the exception, all characters accepted before are intact and writing may resume; a seek outside the buffer fails without moving.",
  ["histories", "fault_sequences", "configurations"],
  "every history of writes, seeks, extractions and reuse over std::string, std::vector, small_vector and static_vector as container, several character types, an allocation failure or capacity exhaustion at any write",
  FAULT_WHY, ["mem_streambuf.hpp"], [("overflow/xsputn growth", "mem_streambuf.hpp"), ("get_container / clear", "mem_streambuf.hpp"), ("seekpos/seekoff", "mem_streambuf.hpp")],
  "peeked and extracted contents and stream state after each operation against a character-array model")

p("C19", "mem_istreambuf reads exactly its memory, at every position, and no more",
  "An input stream over a mem_istreambuf delivers exactly the given characters, in order, each once, then end-of-file, for any mix of single, bulk, line and formatted reads, putbacks, peeks, position queries, seeks (from beginning, current position and end, including to the very end), recovery after end-of-file and resets to other memory, never reading outside the given memory and never writing to it; the reported size and get offset always match. A seek outside the memory fails and leaves the position where it was.",
  ["histories", "fault_sequences", "inputs"],
  "every history of reads, seeks to arbitrary (also invalid) offsets, ends of input and resets, over buffers of any length incl. zero and several character types",
  "The tests read a couple of fixed buffers front to back with a few valid seeks; arbitrary interleavings of short reads, end-of-file recovery and invalid seeks are not exercised.",
  ["mem_streambuf.hpp"], [("seekoff/seekpos", "mem_streambuf.hpp"), ("xsgetn", "mem_streambuf.hpp")],
  "characters, counts, positions and stream state after each operation against a cursor model, guarded memory")

p("C20", "rstream reads sequentially and redirect_rstream always restores the position",
  "Reads through an rstream deliver exactly what the same reads on the wrapped stream would (same characters, counts and fail/eof/good states) and never move it otherwise. A redirect_rstream created on a good stream reads from the requested position, and when it ends, for whatever reason and in whatever state the stream then is (end-of-file, short read, injected read error, scope left by an exception, nested redirects, a stream with an exception mask), the stream's read position is the one from before the redirect, so that reading there (after clearing a failure, if there was one; end-of-file alone is none) continues exactly as without the redirect, and ending it never throws nor hides a failure of the stream.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of reads, short reads, read errors, nested redirects and scope exits at any point over in-memory and simulated-device stream buffers with arbitrary buffering",
  "The tests wrap intact streams and never reach end-of-file, a failing read or an exception inside a redirect.",
  ["rstream.hpp"], [("redirect constructor/destructor", "rstream.hpp"), ("read forwarding", "rstream.hpp")],
  "characters and positions read before, during and after redirects against a direct cursor model")

p("C21", "sentry, ufunction and throw_ex fire exactly once at every exit point",
  "A sentry calls its function exactly once, when it is destroyed, however the scope is left (fall-through, early return, exception from any point, after being returned or moved in C++11), with the function's state as given at construction (one made from an lvalue refers to that function), also while other exceptions are being thrown. A ufunction owns exactly one callable, moved never copied, calls precisely that callable with the arguments given (throwing std::bad_function_call when empty), is empty after being moved from, reset or given a null function pointer or empty wrapper, and destroys each callable exactly once; throw_ex throws exactly one exception of the requested type carrying exactly the streamed text.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "every exit point and exception placement in scopes with nested sentries, every history of ufunction assignment, move, swap and call with throwing callables, C++11/17/20 builds",
  "The tests use a sentry on a couple of fixed exits and a few assignments of ufunction; no fault is injected between arbitrary steps.",
  ["sentry.hpp", "ufunction.hpp", "throw_ex.hpp"], [("destructor-invoked function", "sentry.hpp"), ("copy_wrapper over std::function", "ufunction.hpp"), ("throwing destructor", "throw_ex.hpp")],
  "call counts/order, callable life-cycle registry, exceptions observed")

p("C22", "qalgorithm and transparent_umap keep containers exact when callbacks fail",
  "qfind, pfind and their _if forms find exactly the first match (or the end, or null), erase_first and erase_first_if remove exactly that element, erase_all and erase_all_if exactly the matching ones keeping the order of the rest and returning their number, and qall_of, qany_of and qnone_of answer for all elements, in every kind of container, looking at no element twice. transparent_umap answers and changes like a std::unordered_map for every history of try_emplace (hinted too), operator[], at, find, erase, copy, move and swap with transparent or plain keys: an existing key is never overwritten nor does it use up the key or the arguments offered, a missing one is reported by at with std::out_of_range. If a predicate, comparison, hash, element or allocation throws, that exception comes out unchanged, nothing leaks, a query changes nothing, erase_first leaves the container as it was, erase_all loses or doubles no element which was to stay, and a failed insertion leaves the map exactly as it was.",
  ["histories", "fault_sequences", "inputs"],
  "every history of operations on containers and maps with a failure of any predicate, comparison, hash, element construction or allocation at any point",
  FAULT_WHY, ["qalgorithm.hpp", "transparent_umap.hpp"], [("find-then-erase helpers", "qalgorithm.hpp"), ("find-then-emplace overloads", "transparent_umap.hpp")],
  "container contents, return values, consumed arguments and leaked elements or blocks against a model after every operation")

p("C30", "Non-owning views address exactly the elements they describe",
  "span, stride_span, poly_span and memory_view give access to exactly the elements (or bytes) of the range they were built from, in order, and every sub-view, slice, conversion, comparison and iterator agrees with indexing into the underlying range.",
  ["inputs"], "every range, stride, offset and length accepted by the views",
  "A few fixed ranges are sampled.", ["span.hpp", "stride_span.hpp", "poly_span.hpp", "memory_view.hpp"],
  [("view arithmetic", "span.hpp")], "elements seen through a view")

p("C31", "String and type utilities compute their specified results",
  "strutil (string_view helpers, starts_with and the like), type_traits and the utility helpers (force_move, owner_from_member, bit_cast) give exactly the results their standard counterparts define, for every input.",
  ["inputs"], "every input string, range and type", "A few fixed inputs are sampled.",
  ["strutil.hpp", "type_traits.hpp", "utility.hpp"],
  [("string view helpers", "strutil.hpp")], "returned values")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
