"""What is built and explored for each property."""

ASAN = ["-fsanitize=address,alignment,bounds,null", "-fno-sanitize-recover=all"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc"))]

# the functions whose calls from the code under test the simulated runtime replaces
TWRAP = ["-no-pie", "-rdynamic", "-Wl," + ",".join("--wrap=" + f for f in (
    "malloc", "calloc", "realloc", "free", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen"))]


def single(name, src, quick, thorough, std="c++17", flags=(), parts=1):
    """A single-threaded world: histories with injected faults, under ASan."""
    return dict(name=name, kind="single", src=src, std=std, flags=list(flags), quick=quick, thorough=thorough, parts=parts)


def threads(name, src, quick, thorough, std="c++17", flags=(), parts=1):
    """A multi-threaded world under the simulated scheduler."""
    return dict(name=name, kind="threads", src=src, std=std, flags=list(flags), quick=quick, thorough=thorough, parts=parts)


HISTORY_RULE = ("one case = one seeded configuration plus history of operations with faults attached to operations; "
                "non-trivial: a fault fired inside an operation, or at least 3 operations ran; distinct by the hash of "
                "the executed trace (operations, outcomes, faults)")
SCHED_RULE = ("one case = one seeded program of 2-4 threads plus one seeded schedule; non-trivial: at least 2 threads "
              "ran and the schedule switched threads inside an operation; distinct by the hash of the executed "
              "interleaving (sequence of thread and synchronisation event)")

PROPS = {}


def prop(pid, targets, title, rule, real, stub, assumptions=()):
    PROPS[pid] = dict(id=pid, targets=targets, title=title, rule=rule, real=real, stub=stub, assumptions=list(assumptions))


ALLOC_STUB = "allocators (global new/delete, malloc family, allocator arguments) replaced by counting, failing ones; element types of the harness"

prop("C10", [single("c10", "h_c10.cpp", 1200000, 20000000, parts=7),
              single("c10_20n", "h_c10.cpp", 400000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=7)],
     "small_vector", HISTORY_RULE, "itlib/small_vector.hpp", ALLOC_STUB,
     ["ranges, rvalues and values given to assign do not alias the vector's own elements (other arguments may)", "relocation inside noexcept operations (move, swap) does not throw"])
prop("C11", [single("c11", "h_c11.cpp", 900000, 20000000, parts=6),
              single("c11_20n", "h_c11.cpp", 300000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=6)],
     "static_vector", HISTORY_RULE, "itlib/static_vector.hpp", ALLOC_STUB,
     ["ranges, rvalues and values given to assign do not alias the vector's own elements (other arguments may)"])
prop("C12", [single("c12", "h_c12.cpp", 1200000, 20000000, parts=7),
              single("c12_20n", "h_c12.cpp", 400000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=7)],
     "pod_vector", HISTORY_RULE, "itlib/pod_vector.hpp", ALLOC_STUB + "; pod allocators with in-place and moving realloc, refused expand, size limits",
     ["ranges, rvalues and values given to assign do not alias the vector's own elements (other arguments may)"])
prop("C13", [single("c13", "h_c13.cpp", 1200000, 20000000, parts=6),
              single("c13_20n", "h_c13.cpp", 400000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=6)],
     "flat_map and flat_set", HISTORY_RULE, "itlib/flat_map.hpp, itlib/flat_set.hpp (over std::vector, small_vector and static_vector)",
     ALLOC_STUB + "; stateful comparators which may throw",
     ["moving an element does not throw", "swapped and move-assigned maps use equal allocators"])
prop("C14", [single("c14", "h_c14.cpp", 1500000, 20000000, parts=7), single("c14_20", "h_c14.cpp", 500000, 5000000, std="c++20", parts=7)],
     "any and pmr_allocator", HISTORY_RULE, "itlib/any.hpp, itlib/pmr_allocator.hpp", ALLOC_STUB + "; memory resources which fail and hand out blocks no more aligned than asked",
     ["values are not emplaced from the value being replaced"])
prop("C15", [single("c15", "h_c15.cpp", 2400000, 30000000, parts=6),
              single("c15_20n", "h_c15.cpp", 800000, 10000000, std="c++20", flags=["-DNDEBUG"], parts=6)],
     "expected", HISTORY_RULE, "itlib/expected.hpp", "value and error types of the harness whose constructors, copies and assignments may throw; allocators counted",
     ["moving a value or error does not throw (the move operations are noexcept)"])
prop("C16", [single("c16", "h_c16.cpp", 600000, 15000000, std="c++20", parts=6)],
     "generator", HISTORY_RULE, "itlib/generator.hpp, real compiled coroutines", ALLOC_STUB + "; coroutine bodies are generated scripts",
     ["moving a yielded value does not throw", "next() and begin() are not called on an empty generator, begin() not on a finished one"])
prop("C17", [single("c17", "h_c17.cpp", 900000, 20000000, parts=6),
              single("c17_20n", "h_c17.cpp", 300000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=6)],
     "dynamic_bitset", HISTORY_RULE, "itlib/dynamic_bitset.hpp over std::vector, small_vector, pod_vector and static_vector buffers of every word type", ALLOC_STUB,
     ["copied ranges do not overlap", "all() of an empty bitset is not judged"])
prop("C18", [single("c18", "h_c18.cpp", 900000, 20000000, parts=6),
              single("c18_20n", "h_c18.cpp", 300000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=6)],
     "mem_ostreambuf", HISTORY_RULE, "itlib/mem_streambuf.hpp (mem_ostreambuf) under the real std::basic_ostream", ALLOC_STUB,
     ["seeks relative to the end (which is the capacity) are only judged outside the buffer", "the streambuf is not copied"])
prop("C19", [single("c19", "h_c19.cpp", 900000, 20000000, parts=4),
              single("c19_20n", "h_c19.cpp", 300000, 6666666, std="c++20", flags=["-DNDEBUG"], parts=4)],
     "mem_istreambuf", HISTORY_RULE, "itlib/mem_streambuf.hpp (mem_istreambuf) under the real std::basic_istream", "given memory is an exactly sized block under ASan; std::basic_stringbuf is the reference model",
     ["putback of a character other than the one read is a failure"])
prop("C20", [single("c20", "h_c20.cpp", 1500000, 15000000, parts=5),
              single("c20_20n", "h_c20.cpp", 500000, 5000000, std="c++20", flags=["-DNDEBUG"], parts=5)],
     "rstream and redirect_rstream", HISTORY_RULE, "itlib/rstream.hpp under real std::istream, std::wistream, std::istringstream, std::stringstream and itlib::mem_istreambuf",
     "a simulated file (stream buffer with chunked reads; reads and seeks fail on demand); the reference is the same stream without the wrapper",
     ["redirects are created on good streams", "where a seek of the restoring itself fails only the absence of exceptions is judged"])
prop("C21", [single("c21_11", "h_c21.cpp", 700000, 12000000, std="c++11"), single("c21_17", "h_c21.cpp", 700000, 6000000, std="c++17")],
     "sentry, ufunction and throw_ex", HISTORY_RULE, "itlib/sentry.hpp, itlib/ufunction.hpp, itlib/throw_ex.hpp at C++11 and C++17", "callables and exceptions of the harness",
     ["a sentry's function does not throw", "storing a callable in a ufunction neither throws nor fails to allocate (it is noexcept)", "throw_ex is not used during unwinding"])
SCHED_STUB = ("threads are real but scheduled one at a time by the simulator (every atomic operation, lock, clock read and, in some runs, plain access is a switch point); "
              "pthread locks, clocks, libc statics and the heap are simulated; atomics execute in a sequentially consistent interleaving while data races are judged by the declared memory orders")
prop("C05", [threads("c05", "h_c05.cpp", 1800000, 18000000)],
     "atomic_relaxed_counter", SCHED_RULE, "itlib/atomic.hpp", SCHED_STUB,
     ["copy assignment between two shared counters is a load followed by a store"])
ASPS_REAL = "itlib/atomic_shared_ptr_storage.hpp over the standard library's shared_ptr (and, at C++20, its std::atomic<std::shared_ptr>)"
prop("C01", [threads("c01_17", "h_c01.cpp", 900000, 9000000), threads("c01_11", "h_c01.cpp", 360000, 3600000, std="c++11"), threads("c01_20", "h_c01.cpp", 360000, 3600000, std="c++20")],
     "atomic_shared_ptr_storage linearizability", SCHED_RULE, ASPS_REAL, SCHED_STUB)
prop("C02", [threads("c02_17", "h_c02.cpp", 900000, 9000000), threads("c02_11", "h_c02.cpp", 360000, 3600000, std="c++11", flags=["-faligned-new"]), threads("c02_20", "h_c02.cpp", 360000, 3600000, std="c++20")],
     "atomic_shared_ptr_storage publication and lifetime", SCHED_RULE, ASPS_REAL, SCHED_STUB,
     ["a storage is not used by the destructors it runs while being destroyed itself"])
prop("C03", [threads("c03", "h_c03.cpp", 1500000, 15000000)],
     "strong_try_rec_mutex", SCHED_RULE, "itlib/mutex.hpp", SCHED_STUB, ["unlock is only called by the owner", "a thread releases what it owns before it exits"])
prop("C04", [threads("c04_17", "h_c04.cpp", 900000, 9000000), threads("c04_11", "h_c04.cpp", 360000, 3600000, std="c++11", flags=["-fno-elide-constructors"])],
     "data_mutex", SCHED_RULE, "itlib/data_mutex.hpp over std::mutex, std::recursive_mutex, std::shared_mutex and std::shared_timed_mutex (their pthread calls simulated) and over a simulated mutex whose operations fail, refuse and check their callers",
     SCHED_STUB, ["a guard does not outlive its data_mutex", "a thread keeps at most one guard while it acquires another"])
prop("C06", [threads("c06_17", "h_c06.cpp", 480000, 4800000), threads("c06_11", "h_c06.cpp", 180000, 1800000, std="c++11")],
     "time_t and strftime", SCHED_RULE, "itlib/time_t.hpp over glibc's conversions (gmtime_r, localtime_r, timegm, mktime, strftime) in seven POSIX time zones",
     SCHED_STUB + "; the clock jumps on demand; the buffers glibc shares between threads are simulated; the oracle is an independent calendar",
     ["formats ending in an incomplete conversion are not judged", "zones with daylight saving are judged in the years 1972-2400", "arithmetic does not overflow"])
prop("C07", [threads("c07_17", "h_c07.cpp", 720000, 7200000), threads("c07_11", "h_c07.cpp", 300000, 3000000, std="c++11")],
     "enable_shared_from, make_ptr", SCHED_RULE, "itlib/shared_from.hpp, itlib/make_ptr.hpp over the standard library's shared_ptr, at C++11 and C++17",
     SCHED_STUB + "; objects and arguments of the harness count their constructions, copies and destructions and may throw", [])
prop("C08", [threads("c08_17", "h_c08.cpp", 360000, 3600000), threads("c08_20", "h_c08.cpp", 360000, 3600000, std="c++20")],
     "thread compatibility of every type", SCHED_RULE,
     "every header of itlib, at C++17 and C++20", SCHED_STUB,
     ["the functions of ufunction and throw_ex whose behaviour on a failed allocation is unspecified run without failing allocations"])
prop("C22", [single("c22", "h_c22.cpp", 800000, 8000000, std="c++20", parts=4)],
     "qalgorithm and transparent_umap", HISTORY_RULE, "itlib/qalgorithm.hpp over std::vector, std::list, std::deque, std::string, small_vector, static_vector and pod_vector; itlib/transparent_umap.hpp",
     ALLOC_STUB + "; predicates, comparisons and hashes of the harness which may throw",
     ["erase_all and erase_all_if are used with random access containers", "moving an element does not throw (where copying an element may throw, only the basic guarantee is judged)",
      "transparent keys follow the documented protocol of transparent_umap (the key type says is_transparent)"])
