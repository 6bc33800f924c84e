/* Seams shared by the simulator's parts.  Plain C so that the PostgreSQL
 * backend stub (C, PostgreSQL headers) and the engine (C++) can both use it. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

/* kinds of fault points */
enum { FK_CXX = 0,      /* operator new                                   */
       FK_C = 1,        /* malloc/calloc/realloc/strdup outside of ICU    */
       FK_ICU = 2,      /* malloc made by the ICU libraries               */
       FK_PG = 3,       /* palloc, memory context, hash table (stub)      */
       FK_N = 4 };

/* ---- domain: is the running code the system under test? ---- */
extern __thread int sim_sut_depth;
static inline void sim_enter(void) { ++sim_sut_depth; }
static inline void sim_leave(void) { --sim_sut_depth; }

/* ---- fault points (allocation) ---- */
int  sim_fault_point(int kind, size_t size, void *ra, void *fp);   /* 1: fail this one */
void sim_op_own(int on);                 /* only the calling thread's allocations count */
void sim_op_begin(int op, int64_t fail_at, int burst);  /* resets the per-op ordinal; fail_at 0: none */
uint64_t sim_op_points(void);                  /* fault points passed in this op */
int  sim_op_fired(void);                       /* injected in this op */

/* ---- profile: site hash of every fault point of every op ---- */
void sim_profile(uint32_t *buf, size_t cap, uint32_t *opstart, int nops);

/* ---- heap accounting ---- */
typedef struct { uint64_t blocks, bytes; } SimLive;
SimLive sim_live(void);                        /* SUT heap, without ICU */
void sim_live_describe(uint64_t since_seq, char *out, size_t cap);
uint64_t sim_heap_seq(void);
void *sim_pg_alloc(size_t n);                  /* backend memory: SUT arena, not counted as C heap */
void sim_pg_free(void *p);
void sim_set_junk(unsigned char b);
void sim_set_quarantine(size_t blocks);         /* 0: freed memory is reused at once */
extern int sim_clobber;                        /* 0: freed memory keeps its contents */
void sim_set_clobber(int on);
void sim_heap_check(void);                     /* verifies the quarantine */
void sim_set_heap_cap(size_t bytes);
extern uint64_t sim_total_allocs, sim_fired_by_kind[FK_N];
uint32_t sim_fired_site(void);
int sim_fired_kind(void); size_t sim_fired_size(void);   /* of the first injected failure of this op */

/* ---- verdict ---- */
void sim_violation(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_hash(uint64_t x);                     /* feeds the event-log hash */
void sim_count(int counter, uint64_t n);
void sim_state(uint64_t h);                    /* records a reached abstract state */

/* scheduler yield point (no-op unless the thread scheduler is active) */
extern void (*sim_yield_hook)(int why, const void *addr);

#ifdef __cplusplus
}
#endif
#endif
