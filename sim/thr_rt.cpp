// See thr_rt.h.  The library's objects are compiled with -fsanitize=thread, but the functions
// that instrumentation calls are these, not those of libtsan.
#include "thr_rt.h"
#include "engine.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <clocale>
#include <cwchar>
#include <dlfcn.h>
#include <linux/futex.h>
#include <locale>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void (*sim_mem_hook)(const void *p, size_t n, int freed);
extern "C" char __data_start, _end, __executable_start;

std::string thr_demangle(const char *);
namespace {
const int NT = 8;                       // thread 0 is the main one
typedef uint64_t VC[NT];
inline void join(uint64_t *a, const uint64_t *b) { for (int i = 0; i < NT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
enum { RUNNABLE, BLOCKED, TIMED, DONE };
struct Thr {
    int id; int state; const void *on; int go; void (*fn)(int); VC vc, relf, acqf; bool timedout;
    uintptr_t stk[512]; int sp; int op; pthread_t h; char *alt;
} T[NT];
int nthr = 0; volatile bool on = false; int cur = 0, base = 0;
__thread Thr *self = nullptr;
char fake[64 * 8];                      // stands for state inside the C library

struct Sync { const void *a; int owner, count, readers, kind; VC vc, rvc; };     // owner: thread, 0 none
Sync *sync_of(const void *a); std::string fname(uintptr_t pc); uintptr_t here(Thr *t);
// ---------------------------------------------------------------- scheduling
uint64_t steps = 0, next_at = 0, last_switch = 0, nswitch = 0, nchecked = 0, nhot = 0;
const uint64_t FAIR = 3000000, MAXSTEPS = 80000000ull;
Rng rs(1); int style = 0; double mean = 1000; int prio[NT]; std::vector<uint64_t> *change = nullptr; size_t chi = 0;
bool replayed = false; std::vector<int64_t> *list = nullptr; size_t li = 0; int hotpct = 0, syncpct = 0;
uint64_t recn = 0;
void futex(int *a, int op, int v, const struct timespec *t) { syscall(SYS_futex, a, op, v, t, nullptr, 0); }
void park(Thr *t) { while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex(&t->go, FUTEX_WAIT_PRIVATE, 0, nullptr); __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED); }
void wake(Thr *t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex(&t->go, FUTEX_WAKE_PRIVATE, 1, nullptr); }
uint64_t gap() {
    if (mean <= 0) return 1ull << 60;
    double u = ((double)(rs.next() >> 11) + 1) / 9007199254740993.0; double g = -__builtin_log(u) * mean; return 1 + (uint64_t)g;
}
int count_runnable() { int n = 0; for (int i = 1; i <= nthr; ++i) n += T[i].state == RUNNABLE; return n; }
int pick_other(int me) {        // a runnable thread, other than me when there is one
    int c[NT], n = 0; for (int i = 1; i <= nthr; ++i) if (T[i].state == RUNNABLE && i != me) c[n++] = i;
    if (!n) return me > 0 && T[me].state == RUNNABLE ? me : 0;
    return c[rs.below(n)];
}
int by_prio() { int b = 0; for (int i = 1; i <= nthr; ++i) if (T[i].state == RUNNABLE && (!b || prio[i] > prio[b])) b = i; return b; }
void set_next() {
    if (replayed) { while (li < list->size() && (uint64_t)((*list)[li] >> 3) < steps) ++li; next_at = li < list->size() ? (uint64_t)((*list)[li] >> 3) : 1ull << 60; }
    else if (style == 1) { next_at = chi < change->size() ? (*change)[chi] : 1ull << 60; }
    else next_at = steps + gap();
    if (last_switch + FAIR < next_at) next_at = last_switch + FAIR;
}
void go_to(int k) {             // the calling thread hands over; returns when it is scheduled again
    Thr *me = self;
    if (k == me->id) return;
    ++nswitch; last_switch = steps;
    if (recn * 2 + 1 < PROFCAP) { R->prof[recn * 2] = (uint32_t)steps; R->prof[recn * 2 + 1] = (uint32_t)k; ++recn; R->opstart[0] = (uint32_t)recn; }
    sim_hash(steps * 8 + (uint64_t)k);
    cur = k; int d = sim_sut_depth, e = errno;
    wake(&T[k]); if (me->state != DONE || me->id == 0) park(me);
    sim_sut_depth = d; errno = e;
    R->cur_op = me->op;
}
void preempt() {
    Thr *me = self;
    if (steps > MAXSTEPS) { int d = sim_sut_depth; sim_sut_depth = 0; (void)d; discard("the simulation of the threads is too long"); }
    int k = me->id;
    bool fair = steps >= last_switch + FAIR;
    if (replayed) {
        if (li < list->size() && (uint64_t)((*list)[li] >> 3) == steps) { k = (int)((*list)[li] & 7); ++li; if (k < 1 || k > nthr || T[k].state != RUNNABLE) k = me->id; }
        else if (fair) { for (int i = 1; i <= nthr; ++i) { int j = (me->id - 1 + i) % nthr + 1; if (T[j].state == RUNNABLE) { k = j; break; } } last_switch = steps; }
    } else if (style == 1) {
        if (fair) { prio[me->id] = -(int)(++chi) - 1000; }
        else if (chi < change->size() && (*change)[chi] <= steps) { ++chi; prio[me->id] = -(int)chi; }
        k = by_prio(); if (fair) last_switch = steps;
    } else { k = pick_other(me->id); if (fair) last_switch = steps; }
    set_next();
    if (k != me->id) { go_to(k); }
}
inline void sync_step();
inline void step() { if (__builtin_expect(++steps >= next_at, 0)) preempt(); }
inline void sync_step() { if (syncpct && !replayed && style == 0 && rs.below(100) < syncpct) next_at = steps; step(); }
// the caller cannot go on (state BLOCKED, TIMED or DONE)
void leave() {
    Thr *me = self; ++steps;
    int k = 0;
    if (replayed) {
        while (li < list->size() && (uint64_t)((*list)[li] >> 3) < steps) ++li;
        if (li < list->size() && (uint64_t)((*list)[li] >> 3) == steps) { int c = (int)((*list)[li] & 7); ++li; if (c >= 1 && c <= nthr && T[c].state == RUNNABLE) k = c; }
        if (!k) for (int i = 1; i <= nthr && !k; ++i) if (T[i].state == RUNNABLE) k = i;
    } else k = style == 1 ? by_prio() : pick_other(me->id);
    if (!k) {
        bool all = true; for (int i = 1; i <= nthr; ++i) if (T[i].state != DONE) all = false;
        if (all) k = 0;
        else {
            for (int i = 1; i <= nthr && !k; ++i) if (T[i].state == TIMED) { T[i].timedout = true; T[i].state = RUNNABLE; k = i; }
            if (!k) { sim_sut_depth = 0; std::string w; for (int i = 1; i <= nthr; ++i) if (T[i].state == BLOCKED) { const Sync *q = sync_of(T[i].on); w += strf("; thread %d (step %d of the plan, in %s) waits for %s", i, T[i].op, fname(here(&T[i])).c_str(), q->owner ? strf("what thread %d holds", q->owner).c_str() : "a signal"); } sim_violation("deadlock: every thread waits for another one%s", w.c_str()); }
        }
    }
    if (k == me->id) { set_next(); return; }
    if (k) set_next();
    go_to(k);
}
void block(const void *a, bool timed = false) { Thr *me = self; me->state = timed ? TIMED : BLOCKED; me->on = a; me->timedout = false; leave(); }
void unblock(const void *a, int max = NT) { for (int i = 1; i <= nthr && max; ++i) if ((T[i].state == BLOCKED || T[i].state == TIMED) && T[i].on == a) { T[i].state = RUNNABLE; --max; } }

// ---------------------------------------------------------------- accesses
struct Slot { uint64_t meta, pc; };     // meta: clock << 24 | tid << 16 | atomic << 9 | write << 8 | byte mask; 0 empty
const uintptr_t ALO = 0x210000000000ull, ASZ = (uintptr_t)576 << 20; uintptr_t dlo, dhi; Slot *ash, *dsh;
inline Slot *cell(uintptr_t a) {
    if (a - ALO < ASZ) return ash + ((a - ALO) >> 3) * 4;
    if (a - dlo < dhi - dlo) return dsh + ((a - dlo) >> 3) * 4;
    return nullptr;
}
std::string fname(uintptr_t pc) {
    Dl_info d; if (!pc || !dladdr((void*)pc, &d)) return "?";
    const char *b = strrchr(d.dli_fname, '/'); std::string s = d.dli_sname ? d.dli_sname : "";
    if (!s.empty()) { s = thr_demangle(d.dli_sname); if (s.size() > 90) s = s.substr(0, 90) + "..."; }
    else s = strf("%s+0x%lx", b ? b + 1 : d.dli_fname, (long)(pc - (uintptr_t)d.dli_fbase));
    return s;
}
uintptr_t here(Thr *t) { return t->sp > 0 ? t->stk[t->sp - 1 < 511 ? t->sp - 1 : 511] : 0; }
__attribute__((noinline)) void race(uintptr_t a, Thr *me, bool w, const Slot &s) {
    sim_sut_depth = 0; on = false;
    std::string where = a - ALO < ASZ ? "memory of the heap" : a >= (uintptr_t)fake && a < (uintptr_t)fake + sizeof fake ? "state inside the C library" : "static memory";
    // the call chains, innermost first
    std::string c; for (int i = 0; i < 4 && me->sp - 1 - i >= 0; ++i) { int k = me->sp - 1 - i; if (k > 511) continue; c += (i ? " < " : "") + fname(me->stk[k]); }
    sim_violation("race: %s is %s by thread %d in %s (step %d of the plan) and %s by thread %d in %s without synchronisation between them", where.c_str(), w ? "written" : "read", me->id, c.c_str(), me->op,
        s.meta >> 8 & 1 ? "written" : "read", (int)(s.meta >> 16 & 0xff), fname((uintptr_t)s.pc).c_str());
}
inline void access(uintptr_t a, uintptr_t n, bool w, bool atomic) {
    Thr *me = self; const uint64_t id = (uint64_t)me->id, myclk = me->vc[id];
    bool shared = false;
    while (n) {
        Slot *c = cell(a); uintptr_t o = a & 7, k = n < 8 - o ? n : 8 - o;
        if (c) {
            ++nchecked;
            uint64_t mask = ((k == 8 ? 0xffull : (1ull << k) - 1) << o) & 0xff;
            uint64_t meta = myclk << 24 | id << 16 | (uint64_t)atomic << 9 | (uint64_t)w << 8 | mask;
            int put = -1, weak = -1; bool have = false;
            for (int i = 0; i < 4; ++i) {
                uint64_t m = c[i].meta;
                if (m == meta) { have = true; break; }
                if (!m) { if (put < 0) put = i; continue; }
                uint64_t t = m >> 16 & 0xff;
                if (t == id) { if ((m & 0x300) == (meta & 0x300) && !((m & 0xff) & ~mask)) { put = i; } continue; }
                shared = true;
                bool ordered = (m >> 24) <= me->vc[t];
                if (ordered) { weak = i; continue; }
                if (!(m & mask)) continue;
                if (!((m >> 8 & 1) | w)) continue;
                if ((m >> 9 & 1) & atomic) continue;
                race(a, me, w, c[i]);
            }
            if (!have) { if (put < 0) put = weak >= 0 ? weak : (int)(steps & 3); c[put].meta = meta; c[put].pc = here(me); }
        }
        a += k; n -= k;
    }
    if (shared && hotpct) { ++nhot; if (!replayed && rs.below(100) < hotpct) next_at = steps; }
}
inline bool act() { return on && self && sim_sut_depth > 0; }
#define ACC(a, n, w) do { if (act()) { uintptr_t x_ = (uintptr_t)(a); step(); if (cell(x_)) access(x_, (n), (w), false); } } while (0)
void mem_hook(const void *p, size_t n, int freed) {
    if (!on || !self) return;
    uintptr_t a = (uintptr_t)p; if (a - ALO >= ASZ) return;
    if (freed && sim_sut_depth > 0) access(a, n, true, false);
    memset((void*)(ash + ((a - ALO) >> 3) * 4), 0, ((n + 7) >> 3) * 4 * sizeof(Slot));
}
void yield_hook(int, const void *ra) {
    if (!act()) return;
    static uintptr_t clo = 0, chi_ = 0, llo = 0, lhi = 0;
    if (!clo) {         // text of the C library and the loader: they may hold locks of their own
        int d = sim_sut_depth; sim_sut_depth = 0;
        FILE *f = fopen("/proc/self/maps", "r"); char l[512];
        while (f && fgets(l, sizeof l, f)) { unsigned long lo, hi; char pm[8], path[300] = ""; if (sscanf(l, "%lx-%lx %7s %*s %*s %*s %299s", &lo, &hi, pm, path) < 4) continue;
            bool c = strstr(path, "/libc.so") || strstr(path, "/libc-"), ld = strstr(path, "/ld-") != nullptr;
            if (c) { if (!clo) clo = lo; chi_ = hi; } if (ld) { if (!llo) llo = lo; lhi = hi; } }
        if (f) fclose(f);
        if (!clo) clo = 1;
        sim_sut_depth = d;
    }
    uintptr_t r = (uintptr_t)ra;
    if ((r >= clo && r < chi_) || (r >= llo && r < lhi)) return;
    step();
}

// ---------------------------------------------------------------- synchronisation
const int NSYNC = 1 << 15; Sync *st;
Sync *sync_of(const void *a) {
    uint64_t h = ((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 40; for (int i = 0; i < NSYNC; ++i) { Sync *s = &st[(h + (uint64_t)i) & (NSYNC - 1)]; if (s->a == a) return s; if (!s->a) { s->a = a; return s; } }
    sim_sut_depth = 0; discard("too many synchronisation objects"); return nullptr;
}
inline void tick() { self->vc[self->id]++; }
void acquire(const uint64_t *v) { join(self->vc, v); }
void release_to(uint64_t *v) { join(v, self->vc); tick(); }
bool simulated() { return on && self; }
int lock_mutex(pthread_mutex_t *m, bool try_, bool timed = false) {
    if (sim_sut_depth > 0) sync_step();
    Sync *s = sync_of(m); int id = self->id, kind = m->__data.__kind & 3;
    while (s->owner && s->owner != id) { if (try_) return EBUSY; block(m, timed); if (timed && self->timedout) return ETIMEDOUT; }
    if (s->owner == id) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
        if (try_) return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        sim_sut_depth = 0; sim_violation("deadlock: a thread locks a mutex that it already holds");
    }
    s->owner = id; s->count = 1; acquire(s->vc); return 0;
}
int unlock_mutex(pthread_mutex_t *m, bool yield = true) {
    Sync *s = sync_of(m);
    if (s->owner != self->id) return (m->__data.__kind & 3) == PTHREAD_MUTEX_NORMAL ? 0 : EPERM;
    if (--s->count) return 0;
    s->owner = 0; release_to(s->vc); unblock(m);
    if (yield && sim_sut_depth > 0) sync_step();
    return 0;
}
template <class F> F real(const char *n) { static_assert(sizeof(F) == sizeof(void*), ""); int d = sim_sut_depth; sim_sut_depth = 0; void *p = dlsym(RTLD_NEXT, n); sim_sut_depth = d; return (F)p; }
#define REAL(ret, name, params, args) do { typedef ret (*F_) params; static F_ f_ = nullptr; if (!f_) f_ = real<F_>(#name); return f_ args; } while (0)

void *entry(void *p) {
    Thr *t = (Thr*)p; self = t;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = t->alt; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    wake(&T[0]); park(t);
    t->fn(t->id);
    t->state = DONE; leave();
    for (;;) pause();                   // never ends: nothing of this thread may run unscheduled
}
}

#include <cxxabi.h>
std::string thr_demangle(const char *s) { int st_; char *d = abi::__cxa_demangle(s, nullptr, nullptr, &st_); std::string r = d ? d : s; free(d); size_t p; while ((p = r.find("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >")) != std::string::npos) r.replace(p, 79, "string"); return r; }

void thr_begin(int n, uint64_t sched, const std::vector<int64_t> &preempt_) {
    nthr = n; rs = Rng(sched); memset(T, 0, sizeof T);
    for (int i = 0; i < NT; ++i) { T[i].id = i; T[i].vc[i] = 1; T[i].state = RUNNABLE; T[i].alt = (char*)malloc(65536); }
    self = &T[0]; T[0].op = -1;
    ash = (Slot*)mmap(nullptr, (ASZ >> 3) * 4 * sizeof(Slot), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    dlo = (uintptr_t)&__data_start & ~(uintptr_t)7; dhi = (uintptr_t)&_end;
    dsh = (Slot*)mmap(nullptr, ((dhi - dlo) / 8 + 2) * 4 * sizeof(Slot), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    st = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (ash == MAP_FAILED || dsh == MAP_FAILED || st == MAP_FAILED) discard("no memory for the shadow");
    list = new std::vector<int64_t>; change = new std::vector<uint64_t>;
    replayed = !preempt_.empty();
    for (int64_t x : preempt_) if (x >= 0) list->push_back(x);
    static const double means[] = {20, 150, 1000, 6000, 40000, 300000};
    switch (rs.below(7)) {
        case 0: style = 1; mean = 0; break;                                           // priorities with a few change points
        case 1: style = 0; mean = 0; hotpct = 0; break;                               // one after the other, but for blocking
        case 2: case 3: style = 0; mean = means[4 + rs.below(2)]; hotpct = 20 + rs.below(60); break;   // around shared memory
        default: style = 0; mean = means[rs.below(6)]; hotpct = rs.below(4) ? 0 : 10;
    }
    static const int sp[] = {0, 0, 0, 5, 20, 50, 80}; syncpct = sp[rs.below(7)];
    for (int i = 1; i <= n; ++i) prio[i] = 1 + rs.below(1000);
    if (style == 1) { static const int spans[] = {20000, 200000, 2000000, 20000000}; int d = 1 + rs.below(6), span = spans[rs.below(4)]; for (int i = 0; i < d; ++i) change->push_back(1 + (uint64_t)rs.below(span)); for (size_t i = 0; i < change->size(); ++i) for (size_t j = i + 1; j < change->size(); ++j) if ((*change)[j] < (*change)[i]) std::swap((*change)[i], (*change)[j]); }
    if (style == 0 && mean == 0) next_at = FAIR;
    R->opstart[0] = 0; recn = 0;
}
void thr_spawn(int k, void (*fn)(int)) {
    Thr &t = T[k]; t.fn = fn;
    if (pthread_create(&t.h, nullptr, entry, &t)) discard("pthread_create failed");
    park(&T[0]);                        // until it has started
    memcpy(t.vc, T[0].vc, sizeof t.vc); t.vc[k] = 1;
}
void thr_run() {
    T[0].state = DONE; T[0].vc[0]++;
    sim_mem_hook = mem_hook; sim_yield_hook = yield_hook;
    on = true; set_next();
    int k = 0;
    if (replayed) { if (!list->empty() && (*list)[0] >> 3 == 0) { k = (int)((*list)[0] & 7); li = 1; } if (k < 1 || k > nthr) k = 1; set_next(); }
    else k = style == 1 ? by_prio() : 1 + rs.below(nthr);
    go_to(k);
    on = false; sim_mem_hook = nullptr; sim_yield_hook = nullptr;
    for (int i = 1; i <= nthr; ++i) join(T[0].vc, T[i].vc);
}
void thr_op(int op) {
    self->op = op; self->sp = 0; R->cur_op = op;
    ++steps; if (steps >= next_at || (!replayed && rs.below(3) == 0)) { next_at = steps; preempt(); }
    R->cur_op = op;
    sim_state(mix64(mix64((uint64_t)T[1].op + 2, (uint64_t)T[2].op + 3), mix64((uint64_t)T[3].op + 4, (uint64_t)T[4].op * 8 + (uint64_t)self->id)));
}
void thr_stats(uint64_t &a, uint64_t &b, uint64_t &c, uint64_t &d) { a = steps; b = nswitch; c = nchecked; d = nhot; }

// ---------------------------------------------------------------- called by the instrumented code
extern "C" {
#define RW(n) void __tsan_read##n(void *a) { ACC(a, n, false); } void __tsan_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { ACC(a, n, false); } void __tsan_unaligned_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_volatile_read##n(void *a) { ACC(a, n, false); } void __tsan_volatile_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { ACC(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { ACC(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {
    if (!act()) return;
    Thr *t = self; if (t->sp < 512) t->stk[t->sp] = (uintptr_t)__builtin_return_address(0); ++t->sp;
    step();
}
void __tsan_func_exit() { if (act() && self->sp > 0) --self->sp; }
void __tsan_read_range(void *a, unsigned long n) { ACC(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { ACC(a, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) ACC(p, 8, true); else ACC(p, 8, false); }
void __tsan_vptr_read(void **p) { ACC(p, 8, false); }
}
namespace {
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
VC fencevc;
void pre(const volatile void *a, size_t n, bool w) { step(); if (cell((uintptr_t)a)) access((uintptr_t)a, n, w, true); }
void on_load(const volatile void *a, int mo) { Sync *s = sync_of((const void*)a); if (acq(mo)) acquire(s->vc); else join(self->acqf, s->vc); }
void on_store(const volatile void *a, int mo) { Sync *s = sync_of((const void*)a); if (rel(mo)) { memcpy(s->vc, self->vc, sizeof(VC)); tick(); } else memcpy(s->vc, self->relf, sizeof(VC)); }
void on_rmw(const volatile void *a, int mo) { Sync *s = sync_of((const void*)a); if (acq(mo)) acquire(s->vc); else join(self->acqf, s->vc); if (rel(mo)) release_to(s->vc); else join(s->vc, self->relf); }
}
#define MO(mo) ((mo) & 0xff)
#define ATOM(N, T_) extern "C" { \
T_ __tsan_atomic##N##_load(const volatile T_ *a, int mo) { if (act()) { pre(a, sizeof(T_), false); on_load(a, MO(mo)); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_store(a, MO(mo)); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_exchange(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_fetch_add(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_fetch_sub(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_fetch_and(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_fetch_or(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_fetch_xor(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##N##_fetch_nand(volatile T_ *a, T_ v, int mo) { if (act()) { pre(a, sizeof(T_), true); on_rmw(a, MO(mo)); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##N##_compare_exchange_strong(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { \
    if (act()) { step(); bool eq = __atomic_load_n(a, __ATOMIC_SEQ_CST) == *c; if (cell((uintptr_t)a)) access((uintptr_t)a, sizeof(T_), eq, true); if (eq) on_rmw(a, MO(mo)); else on_load(a, MO(fmo)); } \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##N##_compare_exchange_weak(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
extern "C" {
void __tsan_atomic_thread_fence(int mo) { if (!act()) return; step(); if (acq(mo)) join(self->vc, self->acqf); if (rel(mo)) { memcpy(self->relf, self->vc, sizeof(VC)); tick(); } if (mo == __ATOMIC_SEQ_CST) { join(self->vc, fencevc); join(fencevc, self->vc); tick(); } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks (of the library and of the libraries below it)
int pthread_mutex_lock(pthread_mutex_t *m) { if (simulated()) return lock_mutex(m, false); REAL(int, pthread_mutex_lock, (pthread_mutex_t*), (m)); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (simulated()) return lock_mutex(m, true); REAL(int, pthread_mutex_trylock, (pthread_mutex_t*), (m)); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (simulated()) return lock_mutex(m, false, true); REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*), (m, t)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (simulated()) return unlock_mutex(m); REAL(int, pthread_mutex_unlock, (pthread_mutex_t*), (m)); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) { if (simulated()) { Sync *s = sync_of(m); s->owner = s->count = 0; } REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*), (m, at)); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (simulated()) { Sync *s = sync_of(m); s->owner = s->count = 0; return 0; } REAL(int, pthread_mutex_destroy, (pthread_mutex_t*), (m)); }
static int rd(pthread_rwlock_t *l, bool try_) { if (sim_sut_depth > 0) step(); Sync *s = sync_of(l); while (s->owner) { if (try_ || s->owner == self->id) return EBUSY; block(l); } s->readers++; acquire(s->vc); return 0; }
static int wr(pthread_rwlock_t *l, bool try_) { if (sim_sut_depth > 0) step(); Sync *s = sync_of(l); while (s->owner || s->readers) { if (try_ || s->owner == self->id) return try_ ? EBUSY : EDEADLK; block(l); } s->owner = self->id; acquire(s->vc); acquire(s->rvc); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (simulated()) return rd(l, false); REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*), (l)); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (simulated()) return rd(l, true); REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*), (l)); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (simulated()) return wr(l, false); REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*), (l)); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (simulated()) return wr(l, true); REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*), (l)); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (simulated()) { Sync *s = sync_of(l); if (s->owner == self->id) { s->owner = 0; release_to(s->vc); } else if (s->readers) { s->readers--; release_to(s->rvc); } unblock(l); if (sim_sut_depth > 0) step(); return 0; }
    REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*), (l));
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (simulated()) { unlock_mutex(m, false); block(c); return lock_mutex(m, false); } REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*), (c, m)); }
static int tw(pthread_cond_t *c, pthread_mutex_t *m) { unlock_mutex(m, false); block(c, true); bool t = self->timedout; lock_mutex(m, false); return t ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (simulated()) return tw(c, m); REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*), (c, m, t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (simulated()) return tw(c, m); REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*), (c, m, k, t)); }
int pthread_cond_signal(pthread_cond_t *c) { if (simulated()) { unblock(c, 1); if (sim_sut_depth > 0) step(); return 0; } REAL(int, pthread_cond_signal, (pthread_cond_t*), (c)); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (simulated()) { unblock(c); if (sim_sut_depth > 0) step(); return 0; } REAL(int, pthread_cond_broadcast, (pthread_cond_t*), (c)); }
int sched_yield() { if (simulated()) { ++steps; if (!replayed) next_at = steps; if (steps >= next_at) preempt(); return 0; } return (int)syscall(SYS_sched_yield); }
int pthread_once(pthread_once_t *o, void (*fn)()) {
    if (!simulated()) REAL(int, pthread_once, (pthread_once_t*, void(*)()), (o, fn));
    if (sim_sut_depth > 0) step();
    Sync *s = sync_of(o);
    for (;;) {
        if (*(volatile int*)o == 2) { acquire(s->vc); return 0; }
        if (!s->owner) break;
        if (s->owner == self->id) { sim_sut_depth = 0; sim_violation("deadlock: initialisation that waits for itself"); }
        block(o);
    }
    s->owner = self->id;
    struct Undo { Sync *s; pthread_once_t *o; bool ok; ~Undo() { s->owner = 0; if (ok) *(volatile int*)o = 2; release_to(s->vc); unblock(o); } } u{s, o, false};
    fn(); u.ok = true;
    return 0;
}
// guards of function-local statics: byte 0 done, byte 1 in progress
int __cxa_guard_acquire(char *g) {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) { if (simulated()) acquire(sync_of(g)->vc); return 0; }
    if (!simulated()) { g[1] = 1; return 1; }
    if (sim_sut_depth > 0) step();
    Sync *s = sync_of(g);
    for (;;) {
        if (g[0]) { acquire(s->vc); return 0; }
        if (!s->owner) { s->owner = self->id; acquire(s->vc); return 1; }
        if (s->owner == self->id) { sim_sut_depth = 0; sim_violation("deadlock: initialisation of a static object that waits for itself"); }
        block(g);
    }
}
void __cxa_guard_release(char *g) { if (simulated()) { Sync *s = sync_of(g); s->owner = 0; g[0] = 1; g[1] = 0; release_to(s->vc); unblock(g); if (sim_sut_depth > 0) step(); } else { g[1] = 0; __atomic_store_n(g, 1, __ATOMIC_RELEASE); } }
void __cxa_guard_abort(char *g) { if (simulated()) { Sync *s = sync_of(g); s->owner = 0; g[1] = 0; release_to(s->vc); unblock(g); } else g[1] = 0; }

// ---------------------------------------------------------------- C library functions called by the instrumented objects (renamed by objcopy)
#define RD(p, n) ACC(p, n, false)
#define WRT(p, n) ACC(p, n, true)
void *thr_memcpy(void *d, const void *s, size_t n) { if (n) { RD(s, n); WRT(d, n); } return memcpy(d, s, n); }
void *thr_memmove(void *d, const void *s, size_t n) { if (n) { RD(s, n); WRT(d, n); } return memmove(d, s, n); }
void *thr_memset(void *d, int c, size_t n) { if (n) WRT(d, n); return memset(d, c, n); }
int thr_memcmp(const void *a, const void *b, size_t n) { size_t k = 0; while (k < n && ((const char*)a)[k] == ((const char*)b)[k]) ++k; size_t m = k < n ? k + 1 : n; if (m) { RD(a, m); RD(b, m); } return memcmp(a, b, n); }
size_t thr_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1); return n; }
int thr_strcmp(const char *a, const char *b) { size_t k = 0; while (a[k] && a[k] == b[k]) ++k; RD(a, k + 1); RD(b, k + 1); return strcmp(a, b); }
int thr_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while (k < n && a[k] && a[k] == b[k]) ++k; if (k < n) ++k; if (k) { RD(a, k); RD(b, k); } return strncmp(a, b, n); }
char *thr_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WRT(d, n); return strcpy(d, s); }
char *thr_strncpy(char *d, const char *s, size_t n) { size_t k = strnlen(s, n); RD(s, k < n ? k + 1 : n); if (n) WRT(d, n); return strncpy(d, s, n); }
char *thr_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, k = strlen(d); RD(s, n); RD(d, k + 1); WRT(d + k, n); return strcat(d, s); }
char *thr_strdup(const char *s) { RD(s, strlen(s) + 1); return strdup(s); }
void *thr_memchr(const void *s, int c, size_t n) { void *r = (void*)memchr(s, c, n); size_t k = r ? (size_t)((char*)r - (const char*)s) + 1 : n; if (k) RD(s, k); return r; }
const char *thr_strchr(const char *s, int c) { RD(s, strlen(s) + 1); return strchr(s, c); }
int thr_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); if (n) WRT(b, (size_t)r < n ? (size_t)r + 1 : n); return r; }
int thr_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); WRT(b, (size_t)r + 1); return r; }
// not safe to use from several threads: one fake location each
#define FAKE(k) (&fake[(k) * 8])
char *thr_strtok(char *s, const char *d) { WRT(FAKE(0), 8); return strtok(s, d); }
char *thr_setlocale(int c, const char *l) { if (l) WRT(FAKE(1), 8); else RD(FAKE(1), 8); return setlocale(c, l); }
struct lconv *thr_localeconv() { RD(FAKE(1), 8); WRT(FAKE(2), 8); return localeconv(); }
struct tm *thr_localtime(const time_t *t) { WRT(FAKE(3), 8); return localtime(t); }
struct tm *thr_gmtime(const time_t *t) { WRT(FAKE(3), 8); return gmtime(t); }
char *thr_ctime(const time_t *t) { WRT(FAKE(3), 8); return ctime(t); }
char *thr_asctime(const struct tm *t) { WRT(FAKE(3), 8); return asctime(t); }
char *thr_getenv(const char *n) { RD(FAKE(4), 8); return getenv(n); }
int thr_setenv(const char *n, const char *v, int o) { WRT(FAKE(4), 8); return setenv(n, v, o); }
int thr_putenv(char *n) { WRT(FAKE(4), 8); return putenv(n); }
int thr_unsetenv(const char *n) { WRT(FAKE(4), 8); return unsetenv(n); }
long thr_lrand48() { WRT(FAKE(5), 8); return lrand48(); }
double thr_drand48() { WRT(FAKE(5), 8); return drand48(); }
int thr_mbtowc(wchar_t *w, const char *s, size_t n) { WRT(FAKE(6), 8); return mbtowc(w, s, n); }
int thr_wctomb(char *s, wchar_t w) { WRT(FAKE(6), 8); return wctomb(s, w); }
int thr_mblen(const char *s, size_t n) { WRT(FAKE(6), 8); return mblen(s, n); }
}
// std::locale::global
std::locale thr_locale_global(const std::locale &l) asm("thr_locale_global");
std::locale thr_locale_global(const std::locale &l) { WRT(FAKE(1), 8); return std::locale::global(l); }
