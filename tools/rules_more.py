FS = "file system and system calls (open, read, readv, write, writev, pread, pwrite, lseek, close, rename, unlink, truncate, fsync, chmod, mkstemp of the files involved): in-memory stub with seeded short, interrupted, failing and torn operations (sim/simfs.cpp)"
r("C12", "deterministic simulation of a storage device and of streams with seeded chunking, short, interrupted and failing reads",
  "seeded histories of loads of lexicons and grammars through every public way (file name, ifstream on the simulated disk, string stream, stream over a faulty buffer, archive stream), each with a seeded chunk size, EINTR rate and failure position; non-trivial: a fault or a chunk boundary inside the text was delivered",
  "distinct (source, way, chunking, failure position) tuples", LIBREAL, [HEAP, FS], LA + ["a stream that the caller lets throw reports its own failure; the loader must let it through or report it"],
  "A load whose source failed must report an error; a load of the same bytes in any chunking must give the reference answers. " + SAMP, "fault_enumeration")
r("C14", "deterministic simulation of the compile-lexicon process on a faulty disk, with crash and rerun",
  "seeded runs of the tool's main over a simulated disk: failing open, read, write, close, disk full at a seeded byte, short and interrupted calls, failing (or fatal) rename, unlink, truncate, sync and chmod, a failing allocation (30 %), and death at a seeded system call or byte; then the surviving file is used as a lexicon and the tool is run again; non-trivial: a fault or crash was delivered",
  "distinct (lexicon, fault, position) tuples and outcomes", ["tester/compile-lexicon.cpp", "lexicon and archive classes", "iostreams, Boost.Serialization"], [HEAP, FS], LA + ["data handed to the operating system by a successful write and close is in the file (no power failure)"],
  "Exit status 0 requires the complete file; a failing system call requires failure; what a killed tool left is rejected or equivalent; the rerun is complete. " + SAMP, "fault_enumeration")
r("C15", "deterministic simulation of edit/use/save/load histories with allocation fault injection, against a reference model of the entries",
  "seeded histories over three lexicon objects of inserts, removes, removes of present and absent entries, copies, save/load generations, regex builds, look-ups, tokenizations, parses and standardizations; half of the runs with one failed allocation inside a marked edit at a point chosen for call-site diversity; non-trivial: a use after an edit, or a failure that fired",
  "hash of (entries per object as the model has them, whether a use came between)", LIBREAL, [HEAP], ["expected answers are those of a lexicon newly built from the model's entries in a fresh process", "after a failed edit the lexicon equals the model before or after that edit", "one failed allocation per edit"],
  "After every step, look-up, tokens and standardization are compared with a newly built lexicon of the modelled entries. " + SAMP)
r("C13", "deterministic simulation of threads: one runs at a time, a seeded scheduler decides at every memory access and lock, each run checked for data races and against lone-call answers",
  "2-4 threads of 1-10 calls each (load, free, compile, md5, standardize, parse, match, through pointers and texts) with lexicons of their own and own or shared grammars; scheduler styles: random switches of mean distance 20 to 300000 accesses, switches at accesses to shared memory, priorities with change points (PCT), one after the other; in 25 % of the runs an allocation (or a burst) fails in one call of one thread; non-trivial: more switches than threads",
  "hash of (which call each thread is in, which one runs) at every call boundary, and the hash of each complete schedule", ["as_wrapper.cpp and all library classes, Boost.Regex, std::string and container templates (instrumented: every access is seen by the scheduler and the race check)", "ICU, libstdc++, Boost.Serialization (real, but not instrumented: switched at their locks, allocations and static guards only)"],
  ["threads: real stacks, but exactly one runs; mutexes, rwlocks, condition variables, once, static guards, futex-free replacements in sim/thr_rt.cpp", HEAP],
  LA + ["sequential consistency: races are found by happens-before, weak-memory effects of race-free atomics are not explored", "ICU, Boost.Serialization and libstdc++ are thread-safe for distinct objects, as they document"],
  "Every run fails on the first pair of unordered conflicting accesses to the same memory inside the library, on a deadlock, and on any answer that differs from that of the call alone. " + SAMP)

r("C17", "deterministic simulation of long queries in seeded sessions, memory level invariant checked after every batch of rows",
  "seeded SQL sessions and C API histories that contain long queries: five batches of up to dozens of rows (same, distinct, or cycling addresses and pairs) inside one open query, amid other portals, errors, rescans; memory after each later batch is compared with the level after the first; non-trivial: a long query ran to its end",
  "hash of (open portals, cache contents, subtransaction depth)", SQLREAL, [PG, HEAP], SA + ["per-row memory is reset between rows as the executor does"],
  "Growth from batch to batch in any of the four later batches is a violation; the answers of each batch must repeat. " + SAMP)
