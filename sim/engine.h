// The simulation engine: universes, plans, runs, oracles.
#pragma once
#include "sim.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};
inline uint64_t fnv64(const std::string &s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline uint64_t mix64(uint64_t a, uint64_t b) { uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7f4a7c15 + (a << 6) + (a >> 2)); h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 29); }

// ---------------------------------------------------------------- universe
struct LexSpecEntry { std::string word, std; std::vector<std::string> cls; std::string att; };
struct LexSpec { std::string locale, lang; std::vector<LexSpecEntry> e; };
enum LexKind { LX_GOOD, LX_BAD, LX_COMPILED, LX_OUTDATED, LX_CUT, LX_FAILS };      // LX_FAILS: loads, but every use fails
struct LexItem { LexKind kind; std::string text; int base = -1; int cut = 0; LexSpec spec; };   // text empty until derived
struct GmrItem { bool good; std::string text; };
struct Universe {
    uint64_t seed; int size;
    std::vector<LexItem> lex; std::vector<GmrItem> gmr;
    std::vector<std::string> addr, loc, filt;
    std::vector<int> goodlex, badlex, faillex, complex_, goodgmr, badgmr;
    std::vector<int> twins;                     // pairs of lexicons that differ in one letter of one word; their addresses are the last ones
    std::vector<LexSpecEntry> pool;             // entries that edits insert
};
Universe make_universe(uint64_t seed, int size);
std::string lex_text(const LexSpec &s, const std::string &name = "lex");
std::string entry_line(const LexSpecEntry &e);

// ---------------------------------------------------------------- plan
struct Op { std::string name; std::vector<int> a; int64_t fault = 0; };
// a step's failing allocations: the n-th, and how many from there on (0, 1: only that one)
inline int64_t fault_first(int64_t f) { return f & 0xffffffffll; }
inline int fault_count(int64_t f) { return f > 0 ? (int)(f >> 32) : 0; }
struct Plan {
    std::string prop, exec;      // exec: sql | api | lex | file | tool | thr
    uint64_t seed = 0, useed = 0; int usize = 0;
    int junk = 0xA5, quar = 4096, clob = 1, amb = 0; uint64_t sched = 0;
    std::vector<int64_t> preempt;     // thr: explicit schedule (minimised) or empty
    std::vector<Op> ops;
    std::string text() const;
    static bool parse(const std::string &t, Plan &p, std::map<std::string, std::string> *extra = nullptr);
};

// ---------------------------------------------------------------- run result
const int NCOUNT = 96, NSTATE = 8192;
const size_t PROFCAP = 1 << 20; const int PROFOPS = 256;
struct Result {                       // lives in memory shared with the run's process
    volatile int status;              // 0 running, 1 finished, 2 violation, 3 discarded
    char verdict[3000];
    volatile int cur_op; volatile uint64_t hash; volatile uint64_t steps;
    uint64_t count[NCOUNT];
    uint32_t nstate; uint32_t state[NSTATE];
    uint32_t opstart[PROFOPS + 2]; uint32_t prof[PROFCAP];
    char note[4000]; uint32_t nnote;
    uint64_t nontrivial;
};
extern Result *R;                     // of the current run
enum { C_OPS, C_ROWS, C_ERRORS, C_CALLS, C_LOADS, C_EVICT, C_HITS, C_PORTALS, C_CLOSE, C_CANCEL, C_RESCAN, C_ABANDON, C_ROLLBACK, C_COMMIT, C_ABORT, C_BADCALL, C_BADCTX,
       C_F_CXX, C_F_C, C_F_ICU, C_F_PG, C_FAULT_ERR, C_FAULT_OK, C_OBJ, C_FREEOBJ, C_NOMATCH, C_MATCH, C_COMPILE, C_GEN, C_EDIT, C_CUT, C_CUT_REJ, C_CUT_OK,
       C_IO_SHORT, C_IO_EINTR, C_IO_ERR, C_IO_FULL, C_IO_CRASH, C_IO_CLOSE, C_SWITCH, C_YIELD, C_ACC, C_REPS, C_TRI, C_OOMRETRY, C_INTERLEAVE, C_SAVEPOINT, C_IO_THROW, C_SIMUS, C_DISCARD_SLOW, C_MANY, C_SURVIVE, C_CLOCK, C_AMBIENT, C_KEEP, C_BURST, C_SCAN64, C_SCAN512, C_IO_META, C_FIELD, C_N = C_FIELD + 17 };
static_assert(C_N <= NCOUNT, "counters");
extern const char *count_names[C_N];

// ---------------------------------------------------------------- oracle
// results are strings: "R..." rows / "N" none / "E<message>" / "T" too slow / "X<verdict>" crashed
enum OFn { O_STD, O_PARSE, O_MATCH, O_COMPILE, O_LOADL, O_LOADG, O_MD5, O_FIND, O_TOK };   // O_MD5: mode in c: L, G loaded objects, T text (in l)
struct Oracle {
    struct KeyHash { size_t operator()(const std::string &k) const { uint64_t h = 1469598103934665603ull ^ k.size(); size_t i = 0; for (; i + 8 <= k.size(); i += 8) { uint64_t w; __builtin_memcpy(&w, k.data() + i, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } for (; i < k.size(); ++i) h = (h ^ (unsigned char)k[i]) * 1099511628211ull; return (size_t)(h ^ h >> 32); } };
    std::unordered_map<std::string, std::string, KeyHash> memo; uint64_t asked = 0, forks = 0;
    const std::string &get(OFn f, const std::string &a, const std::string &g, const std::string &l, const std::string &c, const std::string &fl);
    bool frozen = false;
};
extern Oracle oracle;
void want_load_errors(Universe &u, OFn f, int l, int g, const std::string &answer, const std::string &a = "", const std::string &c = "", const std::string &fl = "");     // texts that do not load: every call with them must say so
const std::string &lex_of(Universe &u, int i);     // derives compiled / outdated / cut forms through the oracle
typedef std::vector<std::string> Row;              // "\x01" prefix: value; "\x00": NULL
std::string enc_rows(const std::vector<Row> &rows);
std::vector<Row> dec_rows(const std::string &s);
std::string show_rows(const std::string &s, size_t max = 300);

// direct calls of the C API in this process (under sim_enter); returns an oracle-style string
std::string api_standardize_text(const std::string &a, const std::string &g, const std::string &l, const std::string &c, const std::string &f);
std::string api_parse_text(const std::string &a, const std::string &l, const std::string &c, const std::string &f);
std::string api_match_text(const std::string &a, const std::string &g, const std::string &l, const std::string &c, const std::string &f);
std::string api_compile(const std::string &l);
std::string api_standardize_ptrs(const std::string &a, void *g, void *l, const std::string &c, const std::string &f);
std::string api_parse_ptrs(const std::string &a, void *l, const std::string &c, const std::string &f);
extern bool api_hold; extern std::vector<std::function<void()>> api_held;
std::string api_md5(char mode, void *ptr, const std::string &text);
std::string lex_ref_find(const std::string &l, const std::string &key);
std::string lex_ref_tok(const std::string &l, const std::string &g, const std::string &a, const std::string &f);
void *api_load_lex(const std::string &t, std::string &err);
void *api_load_gmr(const std::string &t, std::string &err);
std::string lex_dump(void *l), gmr_dump(void *g);         // what a loaded object holds, as its operator<< writes it

// ---------------------------------------------------------------- executors
struct Checks { bool rows = true, err = true, leak = false, loads = false, state = true, grow = false; };
void need_sql(Plan &, Universe &);  void exec_sql(const Plan &, Universe &);
void need_api(Plan &, Universe &);  void exec_api(const Plan &, Universe &);
void need_lex(Plan &, Universe &);  void exec_lex(const Plan &, Universe &);
void need_file(Plan &, Universe &); void exec_file(const Plan &, Universe &);
void need_tool(Plan &, Universe &); void exec_tool(const Plan &, Universe &);
void need_thr(Plan &, Universe &);  void exec_thr(const Plan &, Universe &);
Checks checks_for(const std::string &prop);

void dirty(); extern int sim_stack_junk;         // leaves garbage on the stack
void ambient_seed(uint64_t s); void ambient_set(int k);
Plan gen_plan(const std::string &prop, uint64_t seed, bool thorough);
bool prop_uses_faults(const std::string &prop);
void begin_op(const Plan &p, int i, bool allow_fault = true);   // cur_op, fault seam, counters
void end_op();
std::string many_address(const std::string &a, int k, int step);    // the k-th of ever new addresses
void step_tick();         // a step makes progress: its time starts again
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void discard(const char *why) __attribute__((noreturn));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
