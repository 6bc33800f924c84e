/* The simulated PostgreSQL backend, as the engine sees it. */
#ifndef PGSTUB_H
#define PGSTUB_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { FN_STD = 0, FN_PARSE = 1, FN_MATCH = 2, FN_COMPILE = 3 };
typedef struct PgSite PgSite;
typedef struct {
    int  status;            /* 0 row/value, 1 ERROR, 2 end of set */
    char err[1024];         /* ERROR text */
    int  ncols;
    char *val[20];          /* NULL: SQL NULL.  harness-owned, freed by pg_row_free */
} PgRow;
void  pg_init(void);
void *pg_ctx_new(const char *name);             /* child of TopMemoryContext */
void *pg_ctx_child(void *parent, const char *name);
void  pg_ctx_delete(void *cx);
void  pg_ctx_reset(void *cx);
PgSite *pg_site_new(void *query_ctx, int fn);   /* FmgrInfo with fn_mcxt = query_ctx */
void  pg_site_forget(PgSite *);                 /* harness side only */
/* argument texts are placed in argctx; shorthdr selects 1-byte varlena headers where possible */
void  pg_site_args(PgSite *, void *argctx, int n, const char **args, int shorthdr);
/* one call with CurrentMemoryContext = per_tuple */
void  pg_call(PgSite *, void *per_tuple, int result_ok, PgRow *out);
int   pg_site_srf_active(PgSite *);
void  pg_site_shutdown_srf(PgSite *);           /* ExprContext shutdown callback: rescan / normal end */
void  pg_row_free(PgRow *);
uint64_t pg_live_chunks(void);                  /* chunks alive in all memory contexts */
int   pg_live_contexts(void);
int   pg_hash_entries(void);
uint64_t pg_notices(void);
#ifdef __cplusplus
}
#endif
#endif
