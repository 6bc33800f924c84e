#!/usr/bin/env python3
"""Writes tools/rules.json: per property, how its runs are made and judged (copied into evidence and MANIFEST)."""
import json, os
HEAP = "process heap: deterministic arena with junk fill, quarantine, overrun/double-free detection, fault seam"
PG = "PostgreSQL backend (memory contexts, reset callbacks, dynahash, error longjmp, fmgr, SRF protocol, portals, (sub)transactions): stub in sim/pgstub.c, sim/sqlexec.cpp"
SQLREAL = ["address_standardizer.c", "std_pg_hash.c", "as_wrapper.cpp and all library classes", "ICU, Boost.Regex, Boost.Serialization, libstdc++"]
LIBREAL = ["as_wrapper.cpp and all library classes", "ICU, Boost.Regex, Boost.Serialization, libstdc++"]
SA = ["the stub backend follows PostgreSQL's documented rules for memory contexts, callbacks, hash tables, errors and set-returning functions",
      "expected answers are those of an uncached library call in a process that has run nothing before; correctness of that answer itself is not claimed (P-properties)"]
LA = ["expected answers are those of the same call made first in a fresh process; correctness of that answer itself is not claimed (P-properties)"]
R = {}
def r(i, technique, rule, state, real, stub, assume, note, level="exploration"):
    R[i] = dict(technique=technique, rule=rule, state=state, real=real, stub=stub, assume=assume, note=note, level=level)
SAMP = "Seeded sampling of histories, schedules and fault points: a clean batch is evidence, not proof."
r("C01", "deterministic simulation of a backend session, seeded schedules, history checked against per-call reference answers",
  "seeded SQL sessions: 1-4 portals x 2 call sites, 2-8 near-identical (grammar, lexicon) pairs, commits, aborts, savepoints, closes, cancels; non-trivial: at least one cache hit and one eviction or two open portals sharing call history",
  "hash of (open portals, per-call-site cache contents as seen by loads and hits, subtransaction depth)", SQLREAL, [PG, HEAP], SA,
  "Every as_standardize row of every simulated session is compared with the fresh library answer. " + SAMP)
r("C02", "deterministic simulation with fault injection (aborts, cancels, savepoint rollbacks), ownership invariants after every step",
  "seeded SQL sessions as C01 with more portal deaths; loads and frees of library objects are recorded at the link seam; non-trivial: an eviction, or a portal that died holding standardizers",
  "hash of (open portals, alive standardizers per call site, subtransaction depth)", SQLREAL, [PG, HEAP], SA,
  "Builds per pair, number alive, release exactly once (double free and use after free are caught by the simulated heap) and return of live memory to its level are checked after every step. " + SAMP)
r("C03", "deterministic simulation of sessions with failing arguments, error and aftermath checked",
  "seeded SQL sessions in which 30 % of calls get a broken, outdated or unusable lexicon or grammar, inside and outside of savepoints; non-trivial: a failing call followed by a succeeding one in the same session",
  "hash of (open portals, cache contents, subtransaction depth)", SQLREAL, [PG, HEAP], SA,
  "Each failing statement must raise an ERROR containing the library's reason; all later rows are compared with reference answers; live memory is measured over repetitions. " + SAMP)
r("C04", "deterministic simulation with allocation fault injection at site-diverse points of C API histories",
  "seeded API histories; each is profiled without a fault, then re-run with one allocation failure (operator new, malloc, ICU malloc) at a point chosen for call-site diversity, then the call is retried; non-trivial: the failure fired or a call succeeded after an earlier failing one",
  "hash of loaded objects and held results; fault coverage is the number of distinct call stacks at which a failure fired", LIBREAL, [HEAP], LA + ["one failed allocation, or (20 %) a burst of 2-8 in a row, per call; not lasting exhaustion", "libraries below (ICU, Boost.Regex, iostreams) have been used once in the process before, so that their one-time initialisation does not fail"],
  "Outcome, error message, unchanged objects, retry and leak check after every injected failure. " + SAMP, "fault_enumeration")
r("C05", "deterministic simulation of a backend with allocation fault injection (palloc, contexts, hash tables, library heap)",
  "seeded SQL sessions; each is profiled without a fault, then re-run with one allocation failure at a point of a marked statement chosen for call-site diversity, then rolled back and retried; non-trivial: the failure fired",
  "hash of (open portals, cache contents, subtransaction depth); fault coverage as in C04", SQLREAL, [PG, HEAP], SA + ["one failed allocation, or (20 %) a burst of 2-8 in a row, per statement; not lasting exhaustion", "one-time initialisation of the libraries below has succeeded before"],
  "Statement outcome, rows, later statements and live memory after every injected failure. " + SAMP, "fault_enumeration")
r("C06", "deterministic simulation of interleaved row-by-row scans, history checked against per-scan reference rows",
  "seeded SQL sessions with up to 5 portals whose as_parse/as_match scans are fetched 1-3 rows at a time in seeded order, rescanned, and whose per-row memory is reset and overwritten between rows; non-trivial: two scans open at once, or a rescan in mid-stream",
  "hash of the set of (open scan, position)", SQLREAL, [PG, HEAP], SA,
  "Every delivered row is compared by position with the library's rows. " + SAMP)
r("C07", "deterministic simulation with abandonment, cancellation and errors injected at seeded points, conservation of memory checked",
  "seeded SQL sessions in which scans are abandoned after any number of rows, cancelled, rolled back or called in a context that cannot take their result; whole history repeated up to four times; non-trivial: an abandoned scan or failed statement",
  "hash of the set of (open scan, position, portal state)", SQLREAL, [PG, HEAP], SA,
  "Heap blocks outside memory contexts must be released when the statement is gone and a repeated history must not grow. " + SAMP)
r("C08", "deterministic simulation of C API call histories with failing calls interspersed, outcome and conservation invariants",
  "seeded API histories (loads, frees, by-object and by-text calls, results held and freed in any order, 10-35 % malformed arguments), repeated up to four times; non-trivial: a failing call followed by a succeeding one",
  "hash of loaded objects and held results", LIBREAL, [HEAP], LA,
  "Outcome trichotomy on every call with unset out-parameters and dirty stack and heap; live blocks must return to zero growth. " + SAMP)
r("C09", "deterministic simulation of long interleaved histories over several live objects and seeded memory contents, against fresh-process answers",
  "seeded API histories over four lexicon and four grammar slots with loads, frees, failing calls and compiles between; fresh memory filled with a seeded byte, freed memory reused at once or late, or keeping its contents; objects that take the place of freed ones; a clock that jumps between calls, another process id and other ambient settings per run; non-trivial: at least three calls on loaded objects",
  "hash of loaded objects and held results", LIBREAL, [HEAP], LA,
  "Each answer is compared with the answer of the same call made first in a fresh process. " + SAMP)
r("C10", "deterministic simulation of sessions and processes that mix source and compiled forms over save/load generations, against the source's answers",
  "seeded API histories, SQL sessions and edit/save/load chains in which lexicons appear in compiled form; expected answers are those of the source; non-trivial: a compiled lexicon used after other uses",
  "hash of loaded objects, cache contents or lexicon generation and entries", SQLREAL, [PG, HEAP], LA,
  "All answers with compiled forms equal those with the source; compiled texts are equal across histories and processes. " + SAMP)
r("C11", "deterministic simulation with crash points: compiled lexicons torn at seeded offsets, used through every entry point",
  "seeded histories in which compiled lexicons are cut anywhere, near the end, at 512-byte boundaries or between fields, lose their tail to zeros, or carry an older version, between uses of the intact one; non-trivial: every cut",
  "distinct (torn text, entry point) pairs", LIBREAL, [HEAP, "storage: the torn text is handed over as a string or stream"], LA,
  "A torn text must be rejected or equivalent, an outdated one rejected naming recompilation; the intact one keeps working. " + SAMP, "fault_enumeration")
r("C16", "deterministic simulation of sessions, three-way agreement of as_standardize, as_match and as_parse checked on every history",
  "seeded SQL sessions in which the three functions are called on the same arguments in any order amid other calls; non-trivial: at least one three-way check with a match",
  "hash of (open portals, cache contents, subtransaction depth)", SQLREAL, [PG, HEAP], SA,
  "Pattern, score order, token classes and field contents are cross-checked. " + SAMP)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules_more.py")).read())
json.dump(R, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules.json"), "w"), indent=1)
