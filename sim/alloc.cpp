// The simulated heap: every malloc/new of the process is served from a private
// arena at a fixed address.  Deterministic addresses, junk-filled fresh memory,
// poisoned and quarantined freed memory, double-free / overrun detection,
// live-block accounting of the system under test, and the allocation fault seam.
#include "sim.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>

__thread int sim_sut_depth = 0;
void (*sim_yield_hook)(int, const void*) = nullptr;
extern "C" { void (*sim_mem_hook)(const void *p, size_t n, int freed) = nullptr; }
uint64_t sim_total_allocs = 0, sim_fired_by_kind[FK_N] = {0};

namespace {
const uint64_t MAGIC_LIVE = 0x51ab1e0011223344ull, MAGIC_FREE = 0xdeadf2ee55667788ull;
const uint64_t CANARY = 0xc0ffee11ba5eba11ull;
struct Hdr {
    uint64_t magic;
    size_t size;                // requested
    uint32_t cls; uint16_t dom; uint16_t off;   // dom: 0 harness, 1+kind SUT
    uint64_t seq;
    Hdr *prev, *next;           // live list (SUT) or free list / quarantine
    uint64_t ra[2];
};
static_assert(sizeof(Hdr) == 72 || sizeof(Hdr) == 64, "hdr");
const size_t HS = 80;           // header slot, 16-aligned
const size_t ARENA = (size_t)8 << 30;
// two arenas, so that the addresses the system under test sees do not depend on
// what the harness allocated before: 0 harness, 1 system under test
struct Arena { char *base, *brk, *lim; } ar[2];
size_t cap = (size_t)1 << 30;
const int NCLS = 128;
Hdr *freel[2][NCLS];
Hdr *qh = nullptr, *qt = nullptr; size_t qn = 0, qbytes = 0;
size_t QMAX = 4096; const size_t QBYTES = 2u << 20;
Hdr live = {0,0,0,0,0,0,&live,&live,{0,0}};
uint64_t seqno = 0; SimLive lv = {0,0};
unsigned char junk = 0xA5;
// fault state
int cur_op = -1; uint64_t ord = 0; int64_t fail_at = 0; int burst_n = 0; int fired = 0; uint32_t fired_site = 0; int fired_kind = -1; size_t fired_size = 0;
pthread_t owner = 0;        // the only thread whose allocations are counted and may fail
uint32_t *prof = nullptr; size_t profcap = 0, profn = 0; uint32_t *opstart = nullptr; int profops = 0;

void init(int w) {
    if (ar[w].base) return;
    void *want = (void*)(w ? 0x210000000000ull : 0x200000000000ull);
    void *p = mmap(want, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) p = mmap(nullptr, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { const char m[] = "sim heap: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    ar[w].base = ar[w].brk = (char*)p; ar[w].lim = (char*)p + ARENA;
}
inline int cls_of(size_t n, size_t &rounded) {      // n includes header and canary
    if (n <= 1024) { int c = (int)((n + 31) / 32); rounded = (size_t)c * 32; return c; }       // 1..32
    int e = 63 - __builtin_clzll(n - 1);            // 2^e < n <= 2^(e+1)
    size_t q = (size_t)1 << (e - 2);                // quarter steps
    size_t r = ((size_t)1 << e); int k = 0;
    while (r < n) { r += q; ++k; }
    rounded = r; return 33 + (e - 10) * 4 + k;
}
// ---- module table, to name code addresses independently of ASLR ----
struct Mod { uintptr_t lo, hi; char name[40]; bool icu; };
Mod mods[64]; int nmods = 0; bool mods_init = false;
void load_mods() {
    mods_init = true;
    FILE *f = fopen("/proc/self/maps", "r"); if (!f) return;
    char line[512];
    while (fgets(line, sizeof line, f)) {
        unsigned long lo, hi; char perm[8]; char path[300] = "";
        if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %299s", &lo, &hi, perm, path) < 3) continue;
        if (path[0] != '/') continue;
        const char *b = strrchr(path, '/') + 1;
        int i; for (i = 0; i < nmods; ++i) if (!strncmp(mods[i].name, b, 39)) break;
        if (i == nmods) { if (nmods == 64) continue; ++nmods; mods[i].lo = lo; mods[i].hi = hi;
            strncpy(mods[i].name, b, 39); mods[i].icu = !strncmp(b, "libicu", 6); }
        if (lo < mods[i].lo) mods[i].lo = lo;
        if (hi > mods[i].hi) mods[i].hi = hi;
    }
    fclose(f);
}
inline const Mod *mod_of(uintptr_t a) { for (int i = 0; i < nmods; ++i) if (a >= mods[i].lo && a < mods[i].hi) return &mods[i]; return nullptr; }
inline uint64_t norm(uintptr_t a) { const Mod *m = mod_of(a); return m ? ((uint64_t)(m - mods) << 48) | (a - m->lo) : 0; }
__thread uintptr_t t_lo, t_hi;
void stack_bounds() {
    pthread_attr_t at; void *sa; size_t sz;
    int sv = sim_sut_depth; sim_sut_depth = 0;
    if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &sa, &sz); t_lo = (uintptr_t)sa; t_hi = t_lo + sz; pthread_attr_destroy(&at); }
    else { t_lo = 1; t_hi = 1; }
    sim_sut_depth = sv;
}
uint32_t site_of(void *ra, void *fp) {
    if (!t_lo) stack_bounds();
    uint64_t h = norm((uintptr_t)ra) * 0x9E3779B97F4A7C15ull;
    uintptr_t f = (uintptr_t)fp;
    for (int i = 0; i < 6; ++i) {
        if (f < t_lo || f + 16 > t_hi || (f & 7)) break;
        uintptr_t nf = ((uintptr_t*)f)[0], r = ((uintptr_t*)f)[1];
        if (i > 0) { h ^= norm(r); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
        if (nf <= f) break;
        f = nf;
    }
    return (uint32_t)(h >> 16) | 1;
}
void quarantine_out(Hdr *h) {
    unsigned char *p = (unsigned char*)h + HS;
    size_t k = 0; uint64_t w; if (!sim_clobber) k = h->size;
    for (; k + 8 <= h->size; k += 8) { memcpy(&w, p + k, 8); if (w != 0xDDDDDDDDDDDDDDDDull) break; }
    for (size_t i = k; i < h->size; ++i) if (p[i] != 0xDD)
        sim_violation("memory written after it was freed (block of %zu bytes, offset %zu)", h->size, i);
    h->next = freel[1][h->cls]; freel[1][h->cls] = h;
}
void *alloc_(size_t n, int dom, void *ra, void *ra2) {
    const int w = dom ? 1 : 0;
    init(w);
    if (n > ARENA / 2) return nullptr;
    size_t r; int c = cls_of(n + HS + 8, r);
    Arena &A = ar[w];
    Hdr *h = freel[w][c];
    if (h) freel[w][c] = h->next;
    else {
        if (A.brk + r > A.lim || (dom && (size_t)(A.brk - A.base) + r > cap)) {
            static bool once = false;
            if (dom && !once) { once = true; sim_violation("runaway allocation: the simulated heap of %zu MB is exhausted", cap >> 20); }
            return nullptr;
        }
        h = (Hdr*)A.brk; A.brk += r;
    }
    h->magic = MAGIC_LIVE; h->size = n; h->cls = (uint32_t)c; h->dom = (uint16_t)dom; h->off = 0; h->seq = ++seqno;
    h->ra[0] = (uint64_t)ra; h->ra[1] = (uint64_t)ra2;
    char *p = (char*)h + HS;
    memcpy(p + n, &CANARY, 8);
    if (dom) {
        if (sim_mem_hook) sim_mem_hook(p, n, 0);
        if (sim_clobber) memset(p, junk, n);
        if (dom <= 2) { h->prev = live.prev; h->next = &live; live.prev->next = h; live.prev = h; lv.blocks++; lv.bytes += n; }
    }
    return p;
}
void free_(void *p) {
    if (!p) return;
    Hdr *h = (Hdr*)((char*)p - HS);
    if (!(((char*)p >= ar[0].base && (char*)p < ar[0].brk) || ((char*)p >= ar[1].base && (char*)p < ar[1].brk))) { if (sim_sut_depth) sim_violation("free of a pointer that was never allocated (%p)", p); return; }
    if (h->magic != MAGIC_LIVE) {
        if (h->magic == MAGIC_FREE) sim_violation("memory freed twice (block of %zu bytes)", h->size);
        // aligned block?
        sim_violation("free of an invalid pointer");
    }
    if (memcmp((char*)p + h->size, &CANARY, 8)) sim_violation("write past the end of an allocated block of %zu bytes", h->size);
    if (h->dom && sim_mem_hook) sim_mem_hook(p, h->size, 1);
    h->magic = MAGIC_FREE;
    if (h->dom) {
        if (h->dom <= 2) { h->prev->next = h->next; h->next->prev = h->prev; lv.blocks--; lv.bytes -= h->size; }
        if (sim_clobber) memset(p, 0xDD, h->size);
        h->next = nullptr;
        if (qt) qt->next = h; else qh = h;
        qt = h; ++qn; qbytes += h->size;
        while (qn > QMAX || qbytes > QBYTES) { Hdr *o = qh; qh = o->next; if (!qh) qt = nullptr; --qn; qbytes -= o->size; quarantine_out(o); }
    } else { h->next = freel[0][h->cls]; freel[0][h->cls] = h; }
}
inline int kind_c(void *ra) {
    if (!mods_init) return FK_C;
    const Mod *m = mod_of((uintptr_t)ra);
    return m && m->icu ? FK_ICU : FK_C;
}
inline void *api_alloc(size_t n, int kind, void *ra, void *fp) {
    if (!sim_sut_depth) return alloc_(n, 0, ra, nullptr);
    if (sim_yield_hook) sim_yield_hook(1, ra);
    if (kind == FK_C) kind = kind_c(ra);
    if (sim_fault_point(kind, n, ra, fp)) return nullptr;
    void *ra2 = nullptr;
    if (!t_lo) stack_bounds();
    uintptr_t f = (uintptr_t)fp;
    if (f >= t_lo && f + 16 <= t_hi && !(f & 7)) { uintptr_t nf = *(uintptr_t*)f; if (nf > f && nf + 16 <= t_hi && !(nf & 7)) ra2 = ((void**)nf)[1]; }
    return alloc_(n, 1 + kind, ra, ra2);
}
}

extern "C" {
int sim_fault_point(int kind, size_t size, void *ra, void *fp) {
    ++sim_total_allocs;
    if (owner && owner != pthread_self()) return 0;
    ++ord;
    if (prof && profn < profcap) prof[profn++] = (site_of(ra, fp) & ~3u) | (uint32_t)kind;
    if (fail_at && ((int64_t)ord == fail_at || (burst_n && (int64_t)ord > fail_at && (int64_t)ord < fail_at + burst_n))) {
        if (!mods_init) load_mods();
        if (!fired) { fired_site = site_of(ra, fp); fired_kind = kind; fired_size = size; }
        ++fired; ++sim_fired_by_kind[kind];
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
void sim_op_begin(int op, int64_t f, int burst) {
    if (!mods_init) load_mods();
    cur_op = op; ord = 0; fail_at = f; burst_n = burst; fired = 0;
    if (opstart && op >= 0 && op < profops) { opstart[op] = (uint32_t)profn; for (int i = op + 1; i <= profops; ++i) opstart[i] = (uint32_t)profn; }
}
uint64_t sim_op_points(void) { return ord; }
int sim_op_fired(void) { return owner && owner != pthread_self() ? 0 : fired; }
void sim_op_own(int on) { owner = on ? pthread_self() : 0; }
uint32_t sim_fired_site(void) { return fired_site; }
int sim_fired_kind(void) { return fired ? fired_kind : -1; }
size_t sim_fired_size(void) { return fired_size; }
void sim_profile(uint32_t *buf, size_t c, uint32_t *os, int nops) { if (!mods_init) load_mods(); prof = buf; profcap = c; profn = 0; opstart = os; profops = nops; }
void *sim_pg_alloc(size_t n) { return alloc_(n, 1 + FK_PG, nullptr, nullptr); }
void sim_pg_free(void *p) { free_(p); }
SimLive sim_live(void) { return lv; }
uint64_t sim_heap_seq(void) { return seqno; }
void sim_set_junk(unsigned char b) { junk = b; }
void sim_set_quarantine(size_t n) { QMAX = n; }
int sim_clobber = 1;
void sim_set_clobber(int on) { sim_clobber = on; }
void sim_set_heap_cap(size_t b) { cap = b; }
void sim_heap_check(void) {
    for (Hdr *h = sim_clobber ? qh : nullptr; h; h = h->next) {
        unsigned char *p = (unsigned char*)h + HS;
        for (size_t i = 0; i < h->size; ++i) if (p[i] != 0xDD) sim_violation("memory written after it was freed (block of %zu bytes, offset %zu)", h->size, i);
    }
    for (Hdr *h = live.next; h != &live; h = h->next)
        if (memcmp((char*)h + HS + h->size, &CANARY, 8)) sim_violation("write past the end of an allocated block of %zu bytes", h->size);
}
void sim_live_describe(uint64_t since, char *out, size_t c) {
    size_t n = 0; int k = 0; out[0] = 0;
    for (Hdr *h = live.next; h != &live && k < 6; h = h->next) if (h->seq > since) {
        const Mod *m0 = mod_of(h->ra[0]), *m1 = mod_of(h->ra[1]);
        n += (size_t)snprintf(out + n, c - n, "%s%zu bytes from %s+0x%lx<-%s+0x%lx", k ? ", " : "", h->size,
            m0 ? m0->name : "?", m0 ? (long)(h->ra[0] - m0->lo) : 0, m1 ? m1->name : "?", m1 ? (long)(h->ra[1] - m1->lo) : 0);
        if (n >= c) break;
        ++k;
    }
}

#define FP __builtin_frame_address(0)
#define RA __builtin_return_address(0)
void *malloc(size_t n) { void *p = api_alloc(n, FK_C, RA, FP); if (!p) errno = ENOMEM; return p; }
void *calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = api_alloc(n, FK_C, RA, FP); if (p) memset(p, 0, n); else errno = ENOMEM; return p;
}
void free(void *p) { int e = errno; if (sim_sut_depth && sim_yield_hook) sim_yield_hook(2, RA); free_(p); errno = e; }
void *realloc(void *o, size_t n) {
    if (!o) { void *p = api_alloc(n, FK_C, RA, FP); if (!p) errno = ENOMEM; return p; }
    if (!n) { free_(o); return nullptr; }
    Hdr *h = (Hdr*)((char*)o - HS);
    if (h->magic != MAGIC_LIVE) sim_violation("realloc of memory that is not allocated");
    void *p = api_alloc(n, FK_C, RA, FP);
    if (!p) { errno = ENOMEM; return nullptr; }
    memcpy(p, o, h->size < n ? h->size : n);
    free_(o);
    return p;
}
static void *aligned_(size_t al, size_t n, void *ra, void *fp) {
    if (al <= 16) return api_alloc(n, FK_C, ra, fp);
    // over-allocate from the harness domain; never reused by the SUT in practice
    void *p = alloc_(n + al + HS, 0, ra, nullptr); if (!p) return nullptr;
    uintptr_t a = ((uintptr_t)p + HS + al - 1) & ~(uintptr_t)(al - 1);
    if (a == (uintptr_t)p) return p;
    Hdr *h = (Hdr*)(a - HS); size_t r;
    (void)r; h->magic = MAGIC_LIVE; h->size = n; h->cls = 0; h->dom = 0; h->off = 0; h->seq = ++seqno;
    memcpy((char*)a + n, &CANARY, 8);
    return (void*)a;    // freed into class 0: leaked, harmless
}
int posix_memalign(void **o, size_t al, size_t n) { void *p = aligned_(al, n, RA, FP); if (!p) return ENOMEM; *o = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return aligned_(al, n, RA, FP); }
void *memalign(size_t al, size_t n) { return aligned_(al, n, RA, FP); }
void *valloc(size_t n) { return aligned_(4096, n, RA, FP); }
void *pvalloc(size_t n) { return aligned_(4096, (n + 4095) & ~(size_t)4095, RA, FP); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr*)((char*)p - HS))->size : 0; }
}
void *operator new(size_t n) { void *p = api_alloc(n ? n : 1, FK_CXX, RA, FP); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = api_alloc(n ? n : 1, FK_CXX, RA, FP); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
