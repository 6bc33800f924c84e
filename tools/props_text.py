W = "src/as_wrapper.cpp"; H = "src/std_pg_hash.c"; A = "src/address_standardizer.c"; L = "src/lexicon.cpp"; G = "src/grammar.cpp"
p("C01", "Cached standardization answers for the grammar and lexicon of each call",
  "Every SQL call of as_standardize returns exactly the row that a fresh standardization of that address with exactly the grammar, lexicon, locale and filter texts of that call returns. This holds whatever calls the same call site, other call sites and other open queries made before, whichever standardizers were cached, evicted, rebuilt or released in between, and however queries are interleaved, rescanned, closed or aborted.",
  ["histories", "schedules", "inputs"],
  "all interleavings of fetches, rescans, closes, cancels and rollbacks over any number of portals and call sites, with any sequence of (grammar, lexicon, address, locale, filter) arguments including more distinct pairs than the cache has slots",
  "No existing test loads the extension at all; the cache is only wrong after particular sequences (eviction, near-identical texts, slot reuse, portal death), so single calls look right.",
  [H, A], [{"name": "per-call-site cache lookup / insert / eviction", "where": "src/std_pg_hash.c:GetStdUsingFCInfo, IsInStdPortalCache, AddToStdPortalCache"}, {"name": "cached use", "where": "src/address_standardizer.c:as_standardize"}],
  [{"name": "fn_extra cache", "meaning": "4 (lexicon, grammar) -> standardizer slots of one call site", "where": "src/std_pg_hash.c:StdPortalCache"}], ["SQL result rows"])
p("C02", "Cached standardizers are reused, bounded, and each is released exactly once",
  "A call site that has seen at most four distinct (grammar, lexicon) pairs builds each of them once, and a call site never keeps more than four standardizers alive. Every standardizer that was built is released exactly once: when it is evicted, or when its query's memory goes away, however the query ends (completion, close, cancel, error, transaction or savepoint rollback), never earlier and never twice, so a backend's memory returns to its level before the query.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of calls, evictions, portal drops in any order, error aborts and subtransaction rollbacks in one backend",
  "Needs many calls, evictions and abnormal query endings in one long-lived backend; no test runs the extension or counts what is alive.",
  [H], [{"name": "memory-context reset callback and global hash", "where": "src/std_pg_hash.c:StdCacheDelete, AddStdHashEntry, DeleteNextSlotFromStdCache"}, {"name": "round-robin eviction", "where": "src/std_pg_hash.c:AddToStdPortalCache"}],
  [{"name": "StdHash", "meaning": "memory context -> standardizer to release", "where": "src/std_pg_hash.c"}], ["live allocations of the backend after each statement", "loads of lexicon and grammar"])
p("C03", "A grammar, lexicon or argument that fails is a clean SQL error",
  "When the library reports an error for an as_standardize, as_parse, as_match or as_compile_lexicon call (a malformed grammar or lexicon, missing sections, an outdated compiled form, an unusable argument), that statement fails with an SQL ERROR that carries the library's reason, never a crash, an empty result or an all-NULL row. The failure leaves nothing behind: the backend, the standardizers cached by other queries and later statements (also on the same call site) work exactly as if the failing call had not been made, and no memory is lost.",
  ["histories", "inputs", "schedules"],
  "every position of a failing call in every history of good calls, for every kind of bad grammar and lexicon",
  "The tests only check that the C++ constructors throw for three grammars; nothing exercises the SQL error path, nor what later statements of the same backend see.",
  [H, A, W], [{"name": "load error path", "where": "src/std_pg_hash.c:CreateStd"}, {"name": "error reporting", "where": "src/address_standardizer.c:as_standardize, as_parse, as_match, as_compile_lexicon"}],
  None, ["SQLSTATE/ERROR text", "rows of later statements"])
p("C04", "A failed allocation in the C API is an error or has no effect",
  "When any one memory allocation made during a C API call (standardize, parse, match, load, serialize, md5) fails, the call returns either exactly the result it returns without the failure or NULL with an error message (NULL alone for a call that was already reporting an error and could not allocate the message, or that has no message argument); it never crashes, hangs, returns a partial or different result, or leaks what it had allocated. The grammar and lexicon objects involved stay valid: the same call repeated with memory available returns the normal result.",
  ["fault_sequences", "inputs", "histories"],
  "every allocation point of every API call, for every input and prior history",
  "Allocation failures never happen in the unit tests; there are tens of thousands of distinct failure points per call.",
  [W, L, G, "src/lexentry.cpp", "src/inclass.cpp", "src/rule.cpp", "src/token.cpp", "src/utils.cpp", "src/trieutf8.cpp"],
  [{"name": "catch and report in every extern C function", "where": "src/as_wrapper.cpp"}], None, ["API result, err_msg, live allocations"])
p("C05", "A failed allocation in an SQL call is an ERROR or has no effect",
  "When any one memory allocation made while an SQL call of the extension runs fails (palloc, memory-context or hash-table creation, or the library's own heap), the statement either fails with an SQL ERROR or returns exactly its normal rows; it never crashes the backend, loses or changes rows, or leaves a field NULL that should be set. After the failed statement is rolled back its memory is released, cached standardizers of other queries stay valid, and the same statement run again returns its normal rows.",
  ["fault_sequences", "histories", "schedules"],
  "every allocation point of every SQL call at any position of any history of interleaved queries",
  "Out-of-memory in the middle of a cached query cannot be produced by a unit test and the extension is not loaded by any.",
  [H, A, W], [{"name": "cache insertion order", "where": "src/std_pg_hash.c:AddToStdPortalCache"}, {"name": "result building", "where": "src/address_standardizer.c"}], None, ["SQL rows, errors, live allocations"])
p("C06", "as_parse and as_match deliver every row, once, in order, under any interleaving",
  "A scan of as_parse or as_match that runs to the end delivers exactly the token rows or match rows that the library produces for those arguments, each once and in order, and then ends. This holds however the scan is interleaved, row by row, with other scans and calls in the same backend, whatever happens to per-row memory between rows, and a rescan (also with new arguments, also in mid-stream) starts again from the first row.",
  ["schedules", "histories", "inputs"],
  "all row-level interleavings, rescans and restarts of any number of concurrently open scans",
  "The set-returning protocol keeps state between calls; a single complete scan, let alone the absence of any SQL test, cannot show interference between open scans.",
  [A], [{"name": "SRF per-call protocol", "where": "src/address_standardizer.c:as_parse, as_match"}], [{"name": "funcctx->user_fctx", "meaning": "rows not delivered yet", "where": "src/address_standardizer.c"}], ["row streams"])
p("C07", "Abandoned scans and failed statements release everything they hold",
  "However a statement that uses as_parse, as_match, as_standardize or as_compile_lexicon ends - complete, abandoned after any number of rows (LIMIT, cursor close, rescan), cancelled, failed by an error raised elsewhere in the query or by a call in a context that cannot accept its result - all memory it obtained, including memory outside the backend's memory contexts, has been released once the statement is gone. Repeating any history of such statements any number of times does not make the backend grow.",
  ["histories", "schedules", "fault_sequences"],
  "every abandonment point of every scan, in every combination with other open scans",
  "Leaks appear only for abandoned or failing statements and are invisible in results; no test abandons a scan.",
  [A, H], [{"name": "release of malloc'ed rows", "where": "src/address_standardizer.c:as_parse, as_match (end of scan)"}, {"name": "stdaddr_free, tokens_free", "where": "src/address_standardizer.c"}], None, ["live allocations of the backend"])
p("C08", "Every C API call ends in one documented outcome and owns nothing afterwards",
  "Every call of the C API ends in exactly one of: a result with the error message pointer NULL, no result with the pointer NULL (no match), or no result with a freshly allocated message naming the cause; C++ exceptions never escape. Once the caller has freed the returned result, message and loaded objects, the call has left no memory allocated, so any history of calls, successful and failing in any order, runs in bounded memory.",
  ["histories", "inputs"],
  "all sequences of API calls with good, non-matching and malformed arguments in any order, freed in any order",
  "Conservation over histories that mix successes and every kind of failure cannot be sampled by the unit tests, which never call the C API.",
  [W, A], [{"name": "try/catch and err_msg protocol", "where": "src/as_wrapper.cpp"}], None, ["return values, err_msg, live allocations"])
p("C09", "Answers do not depend on what was asked before",
  "A loaded grammar and lexicon give, for each address, locale and filter, the same standardized fields, token rows and match rows on every call, whatever calls on these or other objects - including failing ones, and objects loaded, compiled or freed meanwhile - happened before, whatever the contents of unused memory were, and whatever the process around the library is like (its clock, process id, inherited locale and time zone): a locale that cannot be used is an error. Loading the same texts again, in this or a new process, gives objects that answer the same.",
  ["histories", "inputs", "configurations"],
  "all interleaved histories of loads, frees, standardize, parse, match and compile calls over several live objects, with arbitrary garbage in fresh heap and stack memory",
  "Hidden state (lazily built regexes, caches, uninitialised data, statics) shows only after particular earlier calls; each unit test starts from a fresh process.",
  [W, L, "src/tokenizer.cpp", "src/search.cpp", G], [{"name": "lazily built lexicon regexes", "where": "src/lexicon.cpp:regex, regexPrefixAtt, regexSuffixAtt"}, {"name": "per-call search copy of the grammar", "where": "src/search.h"}], None, ["API results"])
p("C10", "A compiled lexicon behaves exactly like its source",
  "For every lexicon text that loads, the text returned by as_compile_lexicon (or written by compile-lexicon) can be used wherever the source text can, and every parse, match and standardization with it - alone, cached next to the source form, after edits, and after any number of save/load generations - gives exactly the same result as with the source. Compiling is deterministic: the same source always gives the same compiled text.",
  ["histories", "inputs", "configurations"],
  "all lexicons, all chains of compile / load / edit / save generations and all later calls",
  "No test compiles a lexicon and compares behaviour; a field lost in one generation shows only in later calls with particular tokens.",
  ["src/lexicon.h", "src/lexentry.h", W, "src/tester/compile-lexicon.cpp"], [{"name": "boost text archive of the lexicon", "where": "src/lexicon.h:load, save; src/lexentry.h"}], None, ["API and SQL results for compiled vs source"])
p("C11", "A torn, truncated or outdated compiled lexicon is rejected, never silently used",
  "When a compiled lexicon is cut off at any point (a crashed or failed write, a partial transfer), has lost its tail to zeros, or was written by an older archive version, then every use of it either fails with an error - naming recompilation for an outdated version - or gives exactly the results of the complete lexicon. A rejected lexicon leaves the process able to load and use the intact one.",
  ["crash_points", "fault_sequences", "histories"],
  "every truncation point of every compiled lexicon, zeroed tails from every block boundary, every older version, followed by any use",
  "Crash points are a quantifier over every byte offset; no test damages a compiled lexicon.",
  ["src/lexicon.h", W], [{"name": "archive version check and fallback to source parsing", "where": "src/lexicon.h:load; src/as_wrapper.cpp:getLexiconPtr"}], None, ["load outcome and later results"])
p("C12", "Loading a lexicon or grammar from a stream or file is all-or-nothing",
  "If reading the source of a lexicon or grammar fails at any point (I/O error, device failure reported by the stream, missing file), loading reports an error and never yields an object built from the part that could be read. Short reads, interrupted reads and any chunking of the same bytes are invisible: the loaded object answers as if the text had been read in one piece.",
  ["fault_sequences", "schedules", "inputs"],
  "every read-call boundary, error position and chunking of every source",
  "Tests read small intact files; an I/O error in mid-file cannot happen there.",
  [L, G], [{"name": "getline loops", "where": "src/lexicon.cpp:initialize; src/grammar.cpp:initialize"}], None, ["constructor outcome; later answers"])
p("C13", "Threads using their own lexicons do not affect each other",
  "When several threads use the library at the same time, each with lexicons of its own and with its own or a shared loaded grammar, every call returns exactly what it returns when run alone, under every interleaving of the threads. No memory that one thread writes inside the library is read or written by another thread without synchronisation.",
  ["schedules", "inputs"],
  "all preemptive schedules of 2-4 threads loading, compiling, parsing, matching and standardizing",
  "Interference depends on where threads are preempted; the tests are single-threaded.",
  [W, L, G, "src/search.cpp", "src/tokenizer.cpp", "src/utils.cpp", "src/trieutf8.cpp"], [{"name": "absence of shared mutable state; const use of the grammar", "where": "src/search.h, src/tokenizer.h, src/utils.cpp"}], None, ["API results per thread; shared memory accesses"])
p("C14", "compile-lexicon reports success only for a complete output file",
  "When the compile-lexicon tool exits successfully, its output file contains the complete compiled lexicon of its input; if any read or write fails or the disk fills up, it exits with failure. If it is killed at any point, whatever it left in the output file is either rejected as a lexicon or equivalent to the complete one, and a rerun produces the complete file.",
  ["fault_sequences", "crash_points"],
  "every failing, short or interrupted read, write or close, every disk-full point, every crash point",
  "No test runs the tool, and disk faults cannot be produced by a unit test.",
  ["src/tester/compile-lexicon.cpp", "src/lexicon.h"], [{"name": "output stream handling", "where": "src/tester/compile-lexicon.cpp:main"}], None, ["exit status and output file bytes"])
p("C15", "A lexicon edited in any order is the lexicon of its current entries",
  "After any sequence of inserts and removes (duplicates, re-inserts, removes of absent entries, several entries per word, on source-loaded or compiled lexicons, interleaved with look-ups and parsing), look-up, parsing and standardization with the lexicon answer exactly as for a new lexicon built from the entries that are logically present. An edit that fails for lack of memory leaves the lexicon as it was before the edit or as after it.",
  ["histories", "fault_sequences", "inputs"],
  "all edit/use histories over small vocabularies, with allocation failures at any point of an edit",
  "Stale cached regexes or leftover keys show only for particular edit/use orders; the unit tests make one edit.",
  [L, "src/lexicon.h", "src/trieutf8.cpp"], [{"name": "regex cache invalidation on edit", "where": "src/lexicon.cpp:insert, remove"}], [{"name": "regex_, regexPrefix_, regexSuffix_", "meaning": "cached regexes derived from the entries", "where": "src/lexicon.h"}], ["find(), tokens, standardized words"])
p("C16", "as_parse, as_match and as_standardize agree with each other in every session",
  "In every session, for the same address, lexicon, grammar, locale and filter: as_standardize finds a match exactly when as_match lists one, its pattern is one of as_match's best-scored rows, as_match rows are sorted by descending score, and each match classifies the tokens of one of as_parse's alternatives one by one with classes that as_parse allows for them. Each standardized field consists of the words of exactly the tokens that the pattern assigns to it, in order, so no token is lost, duplicated or put into another field.",
  ["histories", "inputs", "schedules"],
  "all interleavings of the three functions over any arguments, with cached, compiled and freshly loaded lexicons",
  "The three functions reach their result through different paths (cached, uncached, materialised, row by row); no test calls any of them, and agreement must hold for all inputs and histories.",
  [A, W, "src/search.cpp", "src/tokenizer.cpp"], [{"name": "shared search", "where": "src/search.cpp:searchAndReclassBest, searchAndReclassAll"}], None, ["SQL result rows"])
p("C17", "A query's memory does not grow with the number of rows it processes",
  "While a query runs, calling as_standardize, as_parse or as_match for ever more rows - with the same or ever new addresses, with cached pairs or with pairs that evict each other, between other calls and scans of the session - keeps the backend's memory at the level it has after the first rows: everything a call obtained beyond the standardizers its call site may keep is gone, at the latest, when its row's memory is reset. In the same way calls of the C API on loaded objects do not make those objects grow.",
  ["histories", "inputs"],
  "all numbers of rows, all sequences of addresses and of (grammar, lexicon) pairs inside one open query",
  "A leak or cache that grows per row is released when the query ends, so results and end-of-query checks look right; it needs many rows in one query while memory is watched, and no test runs a query.",
  [A, H, W, L, G, "src/tokenizer.cpp", "src/search.cpp"], [{"name": "per-call memory and caches", "where": "src/address_standardizer.c:as_standardize, as_parse, as_match; src/std_pg_hash.c:GetStdUsingFCInfo"}],
  [{"name": "fn_mcxt", "meaning": "memory of the call site that lives as long as its query", "where": "src/std_pg_hash.c"}], ["live memory of the backend during a query"])
# ---- properties that no schedule, fault or history can influence: listed, not claimed
PURE = "A quantifier over all inputs of a pure function; the tests sample a few."
p("P01", "Tokens are the longest lexicon phrases, then number/word runs, then splits", "A text is tokenized left to right into the longest matching lexicon phrase or else a run of digits or letters, classified by lexicon entry or by shape; words of no lexicon entry are split at attached prefixes and suffixes.", ["inputs"], "all texts and lexicons", PURE, ["src/tokenizer.cpp", L], [{"name": "token regex", "where": "src/tokenizer.cpp:getTokens"}])
p("P02", "The standardized result is a best-scored complete parse of the address", "The result is a derivation of the grammar that consumes all tokens of one tokenization and whose mean rule score is maximal among all derivations within the recursion bound.", ["inputs"], "all grammars, addresses", PURE, ["src/search.cpp"], [{"name": "search", "where": "src/search.cpp:match, matchNext"}])
p("P03", "Loading a grammar accepts exactly the valid grammars", "A grammar loads if and only if it has an ADDRESS section, all references resolve, no section mixes rules and references or is defined twice, and all rules have equally many input and output classes and a positive score.", ["inputs"], "all grammar texts", PURE, [G, "src/rule.cpp", "src/metarule.cpp"], [{"name": "checks", "where": "src/grammar.cpp:updatePointers"}])
p("P04", "Standardization terminates on recursive grammars", "For every loaded grammar, including recursive ones, and every address the search ends after a bounded number of steps.", ["inputs"], "all grammars, addresses", PURE, ["src/search.cpp"], [{"name": "recursion limit", "where": "src/search.cpp:search, match"}])
p("P05", "Canonically equivalent and differently cased texts standardize alike", "Addresses and lexicon words that are canonically equivalent in Unicode or differ only in case under the locale are treated as equal.", ["inputs"], "all Unicode texts and locales", PURE, ["src/utils.cpp"], [{"name": "NFC and upper case", "where": "src/utils.cpp"}])
p("P06", "Byte-order marks and line endings in source files are ignored", "A lexicon or grammar text with a UTF-8 byte-order mark or CRLF line endings means the same as without.", ["inputs"], "all texts", PURE, [L, G], [{"name": "BOM removal", "where": "src/lexicon.cpp:initialize"}])
p("P07", "Printing and re-reading a lexicon, grammar, rule or class list is the identity", "The textual output of lexicons, grammars, rules and class lists reads back as an equal object.", ["inputs"], "all values", PURE, [L, G, "src/inclass.cpp", "src/outclass.cpp"], [{"name": "operator<<", "where": "src/*.cpp"}])
p("P08", "Fingerprints differ for different texts", "The md5 fingerprint used to recognise lexicon and grammar texts is the RFC 1321 MD5 of the text.", ["inputs"], "all texts", PURE, ["src/md5.cpp"], [{"name": "md5", "where": "src/md5.cpp"}])
p("P09", "No address text crashes the library", "For every byte string as address, locale or filter the library returns a result, no match or an error.", ["inputs"], "all byte strings", PURE, [W, "src/utf8iterator.cpp"], [{"name": "catch-all", "where": "src/as_wrapper.cpp"}])
p("P10", "Class enumeration lists every combination once", "The token patterns tried for a phrase are exactly the combinations of the classes of its tokens, each once.", ["inputs"], "all phrases", PURE, ["src/token.cpp"], [{"name": "enumerate", "where": "src/token.cpp:enumerate"}])
p("P11", "Sample data and install scripts are consistent with the code", "The shipped SQL declarations and sample lexicons and grammars match the functions and load without error.", ["configurations"], "all shipped files", "The tests do not install the extension.", ["src/address_standardizer2--2.0.sql.in", "data/sample", "tools/load-lex-gmr-files"], [{"name": "SQL declarations", "where": "src/address_standardizer2--2.0.sql.in"}])
