// simrun: runs seeded simulations of one property, minimises and replays failures.
//   simrun check PROP --seed S --tier quick|thorough --jobs N --budget SEC --out STATS.json --replays DIR
//   simrun replay FILE [--print]
//   simrun gen PROP SEED            (prints the plan)
#include "engine.h"
#include "pgstub.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <sstream>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using std::string; using std::vector;

Result *R = nullptr;
const char *count_names[C_N] = {"ops", "rows", "sql_errors", "calls", "lexicon_grammar_loads", "evictions", "cache_hits", "portals", "closes", "cancels", "rescans", "abandoned_scans", "savepoint_rollbacks", "commits", "aborts", "failing_calls", "calls_without_record_context",
    "fault_operator_new", "fault_malloc", "fault_icu_malloc", "fault_backend_alloc", "faults_reported_as_error", "faults_without_effect", "objects_loaded", "objects_freed", "no_match", "matches", "compiles", "generations", "edits", "cut_points", "cut_rejected", "cut_equivalent",
    "io_short", "io_eintr", "io_error", "io_disk_full", "io_crash", "io_close_error", "context_switches", "yield_points", "shared_accesses_checked", "repetitions", "three_way_checks", "retries_after_fault", "interleaved_fetches", "savepoints", "io_stream_exception", "simulated_us", "discarded_slow", "batches_of_many_rows", "errors_survived_by_call_site", "looks_at_the_clock", "runs_in_other_surroundings", "runs_with_freed_memory_kept", "fault_bursts_of_failing_allocations", "scans_past_row_64", "scans_past_row_512", "io_metadata_error", "answers_with_building", "answers_with_house_num", "answers_with_predir", "answers_with_qual", "answers_with_pretype", "answers_with_name", "answers_with_suftype", "answers_with_sufdir", "answers_with_ruralroute", "answers_with_extra", "answers_with_city", "answers_with_prov", "answers_with_country", "answers_with_postcode", "answers_with_box", "answers_with_unit", "answers_with_pattern"};

// ---------------------------------------------------------------- small things
string strf(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
void note(const char *f, ...) {
    if (!R) return;
    va_list ap; va_start(ap, f); int d = sim_sut_depth; sim_sut_depth = 0;
    if (R->nnote + 200 < sizeof R->note) { int n = vsnprintf(R->note + R->nnote, 199, f, ap); if (n > 199) n = 199; R->nnote += (uint32_t)n; R->note[R->nnote++] = '\n'; R->note[R->nnote] = 0; }
    sim_sut_depth = d; va_end(ap);
}
extern "C" {
void sim_note(const char *f, ...) { (void)f; }
void sim_hash(uint64_t x) { if (R) R->hash = mix64(R->hash, x); }
void sim_count(int c, uint64_t n) { if (R) R->count[c] += n; }
void sim_state(uint64_t h) { if (R && R->nstate < (uint32_t)NSTATE) { R->state[R->nstate] = (uint32_t)(mix64(h, 77) >> 20); ++R->nstate; } }
void sim_violation(const char *f, ...) {
    sim_sut_depth = 0; sim_yield_hook = nullptr;
    if (R) {
        if (R->status == 0 || R->status == 1) {
            va_list ap; va_start(ap, f); vsnprintf(R->verdict, sizeof R->verdict, f, ap); va_end(ap);
            R->status = 2;
        }
    } else { va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap); fputc('\n', stderr); }
    _exit(77);
}
}
struct Global { volatile int stop; volatile int unsupported; char unsup[100]; uint32_t bm_state[1 << 19], bm_plan[1 << 19], bm_site[1 << 19]; };   // 2^24 bits each
static Global *G;
// a backend function that the simulated backend does not have: no verdict is possible
extern "C" void sim_unsupported(const char *fn) {
    if (G) { snprintf(G->unsup, sizeof G->unsup, "%s", fn); G->unsupported = 1; G->stop = 1; } else fprintf(stderr, "unsupported backend function %s\n", fn);
    if (R) { snprintf(R->verdict, sizeof R->verdict, "unsupported backend function %s", fn); R->status = 3; }
    _exit(75);
}
void discard(const char *why) { if (R) { snprintf(R->verdict, sizeof R->verdict, "%s", why); R->status = 3; } _exit(75); }

static const int OPCPU = 10;        // processor seconds per step (a reference answer may take 1)
static const uint64_t OPALLOC = 3000000, RUNALLOC = 15000000;     // allocations of a reference answer and of a run, beyond which it is too slow to be of use
static char altstack[65536];
static int is_oracle = 0;
static void on_signal(int s) {
    if (s == SIGPROF) {
        if (is_oracle) _exit(76);
        if (R && R->status == 0) { snprintf(R->verdict, sizeof R->verdict, "hang: no end after %d s of processor time in step %d", OPCPU, R->cur_op); R->status = 2; }
        _exit(77);
    }
    if (R && R->status != 2) {
        snprintf(R->verdict, sizeof R->verdict, s == SIGABRT ? "crash: abort (uncaught exception or runtime check) in step %d" : "crash: signal %d (%s) in step %d", s == SIGABRT ? R->cur_op : s, s == SIGSEGV ? "invalid memory access" : s == SIGFPE ? "arithmetic" : "illegal", R->cur_op);
        if (s == SIGABRT) snprintf(R->verdict, sizeof R->verdict, "crash: abort (uncaught exception or runtime check) in step %d", R->cur_op);
        R->status = 2;
    }
    _exit(77);
}
void child_setup(int cpu) {
    is_oracle = cpu <= 2;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    sim_set_heap_cap((size_t)512 << 20);
    if (!getenv("SIM_STDERR")) { int fd = ::dup(2); (void)fd; if (!freopen("/dev/null", "w", stderr)) {} }
}

// ---------------------------------------------------------------- plans as text
string Plan::text() const {
    std::ostringstream o;
    o << "property " << prop << "\nexec " << exec << "\nseed " << seed << "\nuniverse " << useed << " " << usize << "\nheap " << junk << " " << quar << " " << clob << "\nambient " << amb << "\nsched " << sched;
    for (auto p : preempt) o << " " << p;
    o << "\n";
    for (auto &op : ops) { o << "op " << op.name; for (int x : op.a) o << " " << x; if (op.fault) { o << " !" << (op.fault < 0 ? op.fault : fault_first(op.fault)); if (fault_count(op.fault)) o << "+" << fault_count(op.fault); } o << "\n"; }
    return o.str();
}
bool Plan::parse(const string &t, Plan &p, std::map<string, string> *extra) {
    std::istringstream in(t); string line; bool any = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); string k; l >> k;
        if (k == "property") { l >> p.prop; any = true; }
        else if (k == "exec") l >> p.exec;
        else if (k == "seed") l >> p.seed;
        else if (k == "universe") l >> p.useed >> p.usize;
        else if (k == "heap") { l >> p.junk >> p.quar; if (!(l >> p.clob)) p.clob = 1; }
        else if (k == "ambient") l >> p.amb;
        else if (k == "sched") { l >> p.sched; int64_t x; p.preempt.clear(); while (l >> x) p.preempt.push_back(x); }
        else if (k == "op") { Op o; l >> o.name; string w; while (l >> w) { if (w[0] == '!') { o.fault = atoll(w.c_str() + 1); size_t c = w.find('+'); if (c != string::npos) o.fault |= (int64_t)atoi(w.c_str() + c + 1) << 32; } else o.a.push_back(atoi(w.c_str())); } p.ops.push_back(o); }
        else if (extra) (*extra)[k] = line.size() > k.size() + 1 ? line.substr(k.size() + 1) : "";
    }
    return any && !p.exec.empty();
}

// ---------------------------------------------------------------- ops
static void not_too_slow() { if (sim_heap_seq() > RUNALLOC) { R->count[C_DISCARD_SLOW]++; discard("too slow"); } }
bool slow_answer() { return sim_heap_seq() > OPALLOC; }
void begin_op(const Plan &p, int i, bool allow) {
    not_too_slow();
    R->cur_op = i; R->count[C_OPS]++; R->steps++;
    sim_hash((uint64_t)i * 1000003);
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = OPCPU; setitimer(ITIMER_PROF, &tv, nullptr);
    const Op &o = p.ops[(size_t)i];
    sim_op_begin(i, allow && o.fault > 0 ? fault_first(o.fault) : 0, fault_count(o.fault));
}
void step_tick() { not_too_slow(); struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = OPCPU; setitimer(ITIMER_PROF, &tv, nullptr); R->steps++; }
void end_op() {
    if (sim_op_fired() > 1) R->count[C_BURST]++;
    sim_op_begin(PROFOPS + 1, 0, 0);
}

// ---------------------------------------------------------------- one run
void need_thr(Plan &, Universe &) __attribute__((weak)); void exec_thr(const Plan &, Universe &) __attribute__((weak));
typedef void (*NeedFn)(Plan &, Universe &); typedef void (*ExecFn)(const Plan &, Universe &);
struct ExecDef { const char *name; NeedFn need; ExecFn run; };
static const ExecDef execs[] = {{"sql", need_sql, exec_sql}, {"api", need_api, exec_api}, {"lex", need_lex, exec_lex}, {"file", need_file, exec_file}, {"tool", need_tool, exec_tool}, {"thr", need_thr, exec_thr}};   // thr: only in simrun-thr
static const ExecDef *find_exec(const string &n) { for (auto &e : execs) if (n == e.name) return &e; return nullptr; }
static Universe ucache; static bool ucached = false;

// 1 ok, 2 violation, 3 discarded
static int run_plan(Plan p, bool profile = false) {
    const ExecDef *e = find_exec(p.exec); if (!e || !e->run) { fprintf(stderr, "unknown exec %s\n", p.exec.c_str()); _exit(99); }
    if (!ucached || ucache.seed != p.useed || ucache.size != p.usize) { ucache = make_universe(p.useed, p.usize); ucached = true; }
    memset((void*)R, 0, offsetof(Result, prof));
    if (oracle.memo.size() > 4000) oracle.memo.clear();     // never between the needs of one run
    e->need(p, ucache);
    if (R->status == 2 || R->status == 3) return R->status;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { R->status = 3; snprintf(R->verdict, sizeof R->verdict, "fork failed"); return 3; }
    if (pid == 0) {
        child_setup(OPCPU); is_oracle = 0;
        sim_set_junk((unsigned char)p.junk); sim_set_quarantine((size_t)p.quar); sim_set_clobber(p.clob); if (!p.clob) R->count[C_KEEP]++;
        sim_stack_junk = p.junk ^ 0x39; ambient_seed(p.seed * 2 + 1); ambient_set(p.amb);
        if (profile) sim_profile(R->prof, PROFCAP, R->opstart, PROFOPS);
        oracle.frozen = true;
        e->run(p, ucache);
        if (getenv("SIM_ALLOCS")) printf("allocs=%lu ", (unsigned long)sim_heap_seq());
        fflush(stdout);
        sim_heap_check();
        for (int k = 0; k < FK_N; ++k) R->count[C_F_CXX + k] += sim_fired_by_kind[k];
        R->status = 1;
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == 1 || R->status == 2 || R->status == 3) return R->status;
    // ended without saying anything
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { snprintf(R->verdict, sizeof R->verdict, "the run's process was killed from outside"); R->status = 3; return 3; }
    snprintf(R->verdict, sizeof R->verdict, WIFSIGNALED(st) ? "crash: signal %d in step %d" : "crash: the process exited (%d) in step %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), R->cur_op);
    R->status = 2; return 2;
}
static string vclass(const char *v) {
    string s(v); size_t c = s.find(':'); if (c != string::npos && c < 40) s = s.substr(0, c); else s = s.substr(0, 40);
    return s;
}

// ---------------------------------------------------------------- minimiser
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
// the schedule that the last run followed, as an explicit list of (step, thread)
static vector<int64_t> recorded() {
    vector<int64_t> v; uint32_t n = R->opstart[0];
    if (n * 2 + 1 >= PROFCAP) return {};
    for (uint32_t i = 0; i < n; ++i) v.push_back((int64_t)R->prof[i * 2] * 8 + R->prof[i * 2 + 1]);
    if (v.empty()) v.push_back(-1);
    return v;
}
static Plan minimise_thr(Plan p, const string &cls, double end) {
    auto bad = [&](const Plan &q) { return now() < end && run_plan(q) == 2 && vclass(R->verdict) == cls; };
    // fewer operations, under the plan's own seeded scheduler
    if (p.preempt.empty()) for (size_t n = std::max<size_t>(1, p.ops.size() / 2); ; n /= 2) {
        for (size_t i = 0; i + n <= p.ops.size() && now() < end;) { Plan q = p; q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)(i + n)); if (!q.ops.empty() && bad(q)) p = q; else i += n; }
        if (n == 1 || now() > end) break;
    }
    // the schedule as a list, then fewer switches
    Plan e = p; bool have = !p.preempt.empty();
    if (!have && run_plan(p) == 2) { e.preempt = recorded(); have = !e.preempt.empty() && run_plan(e) == 2 && vclass(R->verdict) == cls; }
    if (!have) return p;
    p = e;
    { Plan q = p; q.preempt = {-1}; if (bad(q)) return q; }
    for (size_t n = std::max<size_t>(1, p.preempt.size() / 2); ; n /= 2) {
        for (size_t i = 0; i + n <= p.preempt.size() && now() < end;) { Plan q = p; q.preempt.erase(q.preempt.begin() + (long)i, q.preempt.begin() + (long)(i + n)); if (q.preempt.empty()) q.preempt.push_back(-1); if (q.preempt != p.preempt && bad(q)) p = q; else i += n; }
        if (n == 1 || now() > end) break;
    }
    return p;
}
static Plan minimise(Plan p, const string &cls, double budget) {
    double end = now() + budget; int tries = 0;
    auto bad = [&](const Plan &q) { ++tries; return run_plan(q) == 2 && vclass(R->verdict) == cls; };
    // drop everything after the failing step first
    run_plan(p); size_t c = (size_t)std::max(0, (int)R->cur_op);
    if (c + 1 < p.ops.size()) { Plan q = p; q.ops.resize(c + 1); if (bad(q)) p = q; }
    if (p.exec == "thr") return minimise_thr(p, cls, end);
    for (size_t n = std::max<size_t>(1, p.ops.size() / 2); ; n /= 2) {
        for (size_t i = 0; i + n <= p.ops.size() && now() < end;) {
            Plan q = p; q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)(i + n));
            if (!q.ops.empty() && bad(q)) p = q; else i += n;
        }
        if (n == 1 || now() > end) break;
    }
    for (auto &o : p.ops) if (o.fault && now() < end) { int64_t f = o.fault; o.fault = 0; if (!bad(p)) o.fault = f; }
    if (p.junk != 0xA5) { Plan q = p; q.junk = 0xA5; if (bad(q)) p = q; }
    if (p.quar != 4096) { Plan q = p; q.quar = 4096; if (bad(q)) p = q; }
    if (!p.clob) { Plan q = p; q.clob = 1; if (bad(q)) p = q; }
    if (p.amb) { Plan q = p; q.amb = 0; if (bad(q)) p = q; }
    return p;
}

// ---------------------------------------------------------------- warm-up of the libraries below
void warm_libraries();

// ---------------------------------------------------------------- check
struct WorkerOut {
    volatile uint64_t seeds, runs, discards, faultruns, nontrivial, oracle_forks, oracle_asked, steps;
    uint64_t count[NCOUNT]; volatile int violation; char verdict[3000]; char path[600]; char note[1000];
    uint64_t samples[3]; volatile int unstable; volatile uint64_t distinct_plans; volatile int det_ok, det_bad;
};
static WorkerOut *W;
static bool bm_set(uint32_t *bm, uint64_t h) { uint32_t k = (uint32_t)(mix64(h, 5) >> 13) & 0xffffff; uint32_t m = 1u << (k & 31); return !(__sync_fetch_and_or(&bm[k >> 5], m) & m); }
static bool bm_has(const uint32_t *bm, uint64_t h) { uint32_t k = (uint32_t)(mix64(h, 5) >> 13) & 0xffffff; return bm[k >> 5] & (1u << (k & 31)); }
static uint64_t bm_count(const uint32_t *bm) { uint64_t n = 0; for (int i = 0; i < (1 << 19); ++i) n += (uint64_t)__builtin_popcount(bm[i]); return n; }

static void write_texts(std::ostream &f, const Plan &p) {
    Universe u = make_universe(p.useed, p.usize);
    f << "# --- texts of this universe ---\n";
    auto dump = [&](const string &what, const string &t) { f << "# " << what << ":\n"; std::istringstream in(t); string l; int n = 0; while (std::getline(in, l) && n++ < 80) f << "#    " << (l.size() > 2000 ? l.substr(0, 2000) + "..." : l) << "\n"; };
    for (size_t i = 0; i < u.addr.size(); ++i) dump("address " + std::to_string(i), u.addr[i]);
    for (size_t i = 0; i < u.loc.size(); ++i) dump("locale " + std::to_string(i), u.loc[i]);
    for (size_t i = 0; i < u.filt.size(); ++i) dump("filter " + std::to_string(i), u.filt[i]);
    for (size_t i = 0; i < u.lex.size(); ++i) dump("lexicon " + std::to_string(i) + (u.lex[i].kind == LX_COMPILED ? " = compiled " + std::to_string(u.lex[i].base) : u.lex[i].kind == LX_OUTDATED ? " = outdated " + std::to_string(u.lex[i].base) : ""), u.lex[i].text);
    for (size_t i = 0; i < u.gmr.size(); ++i) dump("grammar " + std::to_string(i), u.gmr[i].text);
}
static void write_replay(const string &path, const Plan &p, const char *verdict, uint64_t hash) {
    std::ofstream f(path);
    f << "# " << verdict << "\n" << p.text() << "expect_hash " << hash << "\nexpect_class " << vclass(verdict) << "\n";
    write_texts(f, p);
}
static bool account(WorkerOut &w, int st, const Plan &p, bool faulted) {
    w.runs++;
    if (st == 3) { w.discards++; return false; }
    for (int i = 0; i < NCOUNT; ++i) w.count[i] += R->count[i];
    w.steps += R->steps;
    for (uint32_t i = 0; i < R->nstate; ++i) bm_set(G->bm_state, R->state[i]);
    string t = p.text(); t = t.substr(t.find("universe"));
    if (bm_set(G->bm_plan, fnv64(t)) && (R->nontrivial || faulted)) { w.nontrivial++; }
    return st == 2;
}
static void worker(int id, int jobs, const string &prop, uint64_t seed0, bool thorough, double budget, uint64_t maxseeds, const string &rdir) {
    WorkerOut &w = W[id];
    double end = now() + budget;
    vector<uint32_t> sites;
    for (uint64_t k = (uint64_t)id; !G->stop && now() < end && k < maxseeds; k += (uint64_t)jobs) {
        uint64_t seed = seed0 * 1000003ull + k;
        Plan p = gen_plan(prop, seed, thorough);
        vector<Plan> todo;
        bool faults = prop_uses_faults(prop);
        int st = run_plan(p, faults);
        w.seeds++;
        if (w.seeds <= 3) { w.samples[w.seeds - 1] = seed; uint64_t h = R->hash; string v = R->verdict; int st2 = run_plan(p, faults); if (st2 == st && (st == 3 || h == R->hash)) w.det_ok++; else { w.det_bad++; snprintf(w.note, sizeof w.note, "seed %lu: two executions differ (%d/%d)", (unsigned long)seed, st, st2); } }
        bool bad = account(w, st, p, false);
        Plan failing = p;
        if (!bad && st == 1 && faults) {
            // choose fault points by call-site diversity
            Rng r(seed ^ 0xfa17);
            struct Pt { int op; int64_t ord; uint32_t site; };
            vector<Pt> pts; vector<uint32_t> sites_here; std::unordered_map<uint32_t, vector<uint32_t>> at;
            int nops = (int)std::min<size_t>(p.ops.size(), PROFOPS);
            for (int o = 0; o < nops; ++o) {
                if (p.ops[(size_t)o].fault != -1) continue;       // -1 marks a step whose allocations may fail
                for (uint32_t i = R->opstart[o]; i < R->opstart[o + 1] && i < PROFCAP; ++i) {
                    auto &v = at[R->prof[i]]; if (v.empty()) sites_here.push_back(R->prof[i]);
                    v.push_back((uint32_t)pts.size()); pts.push_back({o, (int64_t)(i - R->opstart[o]) + 1, R->prof[i]});
                }
            }
            // call stacks that never had a failure first, then those of the C code and the backend, then any
            vector<uint32_t> fresh, shallow;
            for (uint32_t x : sites_here) { if (!bm_has(G->bm_site, x)) fresh.push_back(x); if ((x & 3) == FK_C || (x & 3) == FK_PG) shallow.push_back(x); }
            int nf = thorough ? 60 : 24;
            if (!pts.empty()) for (int i = 0; i < nf; ++i) {
                Pt c; int m = r.below(100);
                auto of = [&](uint32_t x) { return pts[r.pick(at[x])]; };
                if (m < 50 && !fresh.empty()) { size_t k = (size_t)r.below((int)fresh.size()); c = of(fresh[k]); fresh[k] = fresh.back(); fresh.pop_back(); }
                else if (m < 70 && !shallow.empty()) c = of(r.pick(shallow));
                else if (m < 85) c = of(r.pick(sites_here));
                else c = r.pick(pts);
                Plan q = p; q.ops[(size_t)c.op].fault = c.ord;
                if (r.chance(getenv("SIM_BURST") ? atoi(getenv("SIM_BURST")) : 20)) { static const int bs[] = {2, 3, 4, 10, 100, 1 << 30}; q.ops[(size_t)c.op].fault |= (int64_t)bs[r.below(6)] << 32; }
                todo.push_back(q); sites.push_back(c.site);
            }
            for (size_t i = 0; i < todo.size() && !bad && !G->stop && now() < end; ++i) {
                st = run_plan(todo[i]); w.faultruns++;
                bad = account(w, st, todo[i], true);
                if (st == 1 || st == 2) bm_set(G->bm_site, sites[i]);
                if (bad) failing = todo[i];
            }
            sites.clear();
        }
        if (bad) {
            string v = R->verdict, cls = vclass(R->verdict); bool stable = true;
            for (int i = 0; i < 2; ++i) if (run_plan(failing) != 2 || vclass(R->verdict) != cls) stable = false;
            if (!stable) { w.unstable++; snprintf(w.note, sizeof w.note, "seed %lu: not reproducible: %s", (unsigned long)seed, v.c_str()); continue; }
            if (__sync_val_compare_and_swap(&G->stop, 0, 1) != 0) return;
            Plan m = minimise(failing, cls, thorough ? 60 : 25);
            run_plan(m);
            string path = rdir + "/" + prop + "-" + std::to_string(seed) + ".replay";
            write_replay(path, m, R->verdict, R->hash);
            snprintf(w.verdict, sizeof w.verdict, "%s", R->verdict); snprintf(w.path, sizeof w.path, "%s", path.c_str());
            w.violation = 1; return;
        }
    }
    w.oracle_forks = oracle.forks; w.oracle_asked = oracle.asked;
}
static string jstr(const string &s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char)c; } return o + "\""; }

static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(99); } return p; }
static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

int main(int ac, char **av) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)(pers | ADDR_NO_RANDOMIZE)) != -1) execv("/proc/self/exe", av);
    }
    vector<string> a(av + 1, av + ac);
    if (a.size() < 2) { fprintf(stderr, "usage: simrun check|replay|gen ...\n"); return 99; }
    auto opt = [&](const string &k, const string &d) { for (size_t i = 2; i + 1 < a.size(); ++i) if (a[i] == k) return a[i + 1]; return d; };
    pg_init();
    warm_libraries();
    if (a[0] == "gen") { Plan p = gen_plan(a[1], strtoull(a[2].c_str(), nullptr, 10), opt("--tier", "quick") == "thorough"); printf("%s", p.text().c_str()); if (opt("--texts", "") == "yes") write_texts(std::cout, p); return 0; }
    if (a[0] == "replay" || a[0] == "run") {
        Plan p; std::map<string, string> ex;
        if (!Plan::parse(slurp(a[1]), p, &ex)) { fprintf(stderr, "cannot read %s\n", a[1].c_str()); return 99; }
        R = (Result*)shm(sizeof(Result));
        int st = run_plan(p);
        bool same = !ex.count("expect_hash") || strtoull(ex["expect_hash"].c_str(), nullptr, 10) == (uint64_t)R->hash;
        if (R->nnote) printf("%s", R->note);
        printf("%s hash=%lu%s %s\n", st == 1 ? "ok" : st == 2 ? "VIOLATION" : "discarded", (unsigned long)R->hash, ex.count("expect_hash") ? (same ? " (as recorded)" : " (differs from the recorded run)") : "", st == 1 ? "" : R->verdict);
        return st == 2 ? (ex.count("expect_class") && ex["expect_class"] != vclass(R->verdict) ? 3 : 1) : st == 1 ? 0 : 2;
    }
    if (a[0] != "check") return 99;
    string prop = a[1]; bool thorough = opt("--tier", "quick") == "thorough";
    uint64_t seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10), maxseeds = strtoull(opt("--max", "1000000000").c_str(), nullptr, 10);
    int jobs = atoi(opt("--jobs", "8").c_str()); double budget = atof(opt("--budget", "40").c_str());
    string rdir = opt("--replays", "replays"), out = opt("--out", "");
    G = (Global*)shm(sizeof(Global)); W = (WorkerOut*)shm(sizeof(WorkerOut) * (size_t)jobs);
    double t0 = now(); vector<pid_t> pids;
    for (int i = 0; i < jobs; ++i) {
        pid_t pid = fork();
        if (pid == 0) { R = (Result*)shm(sizeof(Result)); worker(i, jobs, prop, seed, thorough, budget, maxseeds, rdir); _exit(0); }
        pids.push_back(pid);
    }
    int dead = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { ++dead; fprintf(stderr, "worker ended abnormally (%d)\n", st); } }
    double dt = now() - t0;
    WorkerOut T; memset((void*)&T, 0, sizeof T); string vpath, verdict, notes; vector<uint64_t> samples;
    for (int i = 0; i < jobs; ++i) {
        WorkerOut &w = W[i]; T.seeds += w.seeds; T.runs += w.runs; T.discards += w.discards; T.faultruns += w.faultruns; T.nontrivial += w.nontrivial; T.steps += w.steps; T.oracle_asked += w.oracle_asked; T.oracle_forks += w.oracle_forks; T.unstable += w.unstable; T.det_ok += w.det_ok; T.det_bad += w.det_bad;
        for (int k = 0; k < NCOUNT; ++k) T.count[k] += w.count[k];
        if (w.violation && vpath.empty()) { vpath = w.path; verdict = w.verdict; }
        if (w.note[0]) notes += string(w.note) + "; ";
        for (auto s : w.samples) if (s) samples.push_back(s);
    }
    std::ostringstream o;
    o << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(thorough ? "thorough" : "quick") << ",\"base_seed\":" << seed << ",\"wall_seconds\":" << dt << ",\"seeds\":" << T.seeds << ",\"runs\":" << T.runs << ",\"fault_runs\":" << T.faultruns
      << ",\"discarded\":" << T.discards << ",\"distinct_plans\":" << bm_count(G->bm_plan) << ",\"distinct_nontrivial\":" << T.nontrivial << ",\"distinct_states\":" << bm_count(G->bm_state) << ",\"distinct_fault_sites\":" << bm_count(G->bm_site)
      << ",\"steps\":" << T.steps << ",\"reference_answers\":" << T.oracle_forks << ",\"reference_lookups\":" << T.oracle_asked << ",\"determinism_checked\":" << T.det_ok << ",\"determinism_failed\":" << T.det_bad << ",\"unstable\":" << T.unstable << ",\"dead_workers\":" << dead
      << ",\"notes\":" << jstr(notes) << ",\"counts\":{";
    bool first = true; for (int i = 0; i < C_N; ++i) if (T.count[i]) { o << (first ? "" : ",") << jstr(count_names[i]) << ":" << T.count[i]; first = false; }
    o << "},\"samples\":["; 
    for (size_t i = 0; i < samples.size() && i < 3; ++i) { Plan p = gen_plan(prop, samples[i], thorough); o << (i ? "," : "") << jstr(p.text().substr(0, 700)); }
    o << "],\"violation\":" << (vpath.empty() ? "null" : jstr(vpath)) << ",\"verdict\":" << jstr(verdict) << "}\n";
    if (!out.empty()) { std::ofstream f(out); f << o.str(); } else std::cout << o.str();
    if (!vpath.empty() && !G->unsupported) { printf("FOUND %s\n%s\n", vpath.c_str(), verdict.c_str()); return 1; }
    if (G->unsupported) { printf("unsupported backend function %s\n", G->unsup); return 5; }
    if (dead) return 4;
    return 0;
}
