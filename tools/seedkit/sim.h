/* Minimal replacement of the simulator's sim.h, for stand-alone demonstrations. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { FK_CXX, FK_C, FK_ICU, FK_PG, FK_N };
extern int sim_sut_depth;
extern int sim_clobber;
extern size_t mini_bytes;                     /* backend memory, which is never given back */
extern long mini_fail_at, mini_points;      /* fail the n-th backend allocation */
static inline void sim_enter(void) { ++sim_sut_depth; }
static inline void sim_leave(void) { --sim_sut_depth; }
int sim_fault_point(int kind, size_t size, void *ra, void *fp);
void *sim_pg_alloc(size_t n);
void sim_pg_free(void *p);
#define sim_violation(...) do { fprintf(stderr, "backend: " __VA_ARGS__); fprintf(stderr, "\n"); exit(3); } while (0)
#ifdef __cplusplus
}
#endif
#endif
