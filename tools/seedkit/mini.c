#include "sim.h"
#include <string.h>
#include <malloc.h>
int sim_sut_depth; long mini_fail_at, mini_points;
int sim_fault_point(int kind, size_t size, void *ra, void *fp) { (void)kind; (void)size; (void)ra; (void)fp; return ++mini_points == mini_fail_at; }
/* freed backend memory is overwritten at once, as a backend with CLOBBER_FREED_MEMORY does, and not reused */
int sim_clobber = 1;
size_t mini_bytes;
void *sim_pg_alloc(size_t n) { void *p = malloc(n); mini_bytes += malloc_usable_size(p) + sizeof(size_t); return p; }
void sim_pg_free(void *p) { (void)p; }
