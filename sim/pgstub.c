/* A stub of the part of a PostgreSQL 16 backend that the extension uses.
 * Compiled against the real PostgreSQL headers, so structures, macros and inline
 * functions are the real ones; the functions behind them are small models:
 *  - memory contexts: tree, reset/delete with callbacks run before the memory goes,
 *    children first, freed memory poisoned (each chunk is its own heap block);
 *  - ereport/elog(ERROR): siglongjmp to PG_exception_stack;
 *  - dynahash: linked list, entries live in a private context, freed entries reused;
 *  - SRF protocol (funcapi): multi-call context under fn_mcxt, shutdown callback;
 *  - tuples: values copied into one chunk of the current context. */
#include "postgres.h"
#include "fmgr.h"
#include "funcapi.h"
#include "executor/spi.h"
#include "miscadmin.h"
#include "access/htup_details.h"
#include "catalog/pg_type.h"
#include "utils/builtins.h"
#include "utils/hsearch.h"
#include "utils/memutils.h"
#include "nodes/memnodes.h"
#include "nodes/pg_list.h"
#include "lib/stringinfo.h"
#include "mb/pg_wchar.h"
#include "access/xact.h"
#include "storage/ipc.h"
#undef printf
#undef fprintf
#undef vsnprintf
#undef snprintf
#undef sprintf
#undef strerror
#undef malloc
#undef free
#include "sim.h"
#include "pgstub.h"
#include <setjmp.h>

extern int snprintf(char *, size_t, const char *, ...);
extern int vsnprintf(char *, size_t, const char *, va_list);

/* ---------- globals the headers declare ---------- */
MemoryContext TopMemoryContext, CurrentMemoryContext, ErrorContext, PostmasterContext, CacheMemoryContext,
    MessageContext, TopTransactionContext, CurTransactionContext, PortalContext;
sigjmp_buf *PG_exception_stack = NULL;
ErrorContextCallback *error_context_stack = NULL;
volatile sig_atomic_t InterruptPending = 0;
volatile uint32 InterruptHoldoffCount = 0, QueryCancelHoldoffCount = 0, CritSectionCount = 0;
int work_mem = 4096;
struct Node *newNodeMacroHolder_;

static int in_cleanup = 0;
static uint64_t live_chunks = 0, n_notices = 0;
static int live_ctx = 0;

/* ---------- errors ---------- */
static char err_text[1024], err_detail[512];
static int err_level = 0, err_depth = 0;
bool errstart(int elevel, const char *domain) {
    if (elevel < NOTICE) return false;
    err_level = elevel; err_text[0] = 0; err_detail[0] = 0; ++err_depth;
    return true;
}
bool errstart_cold(int elevel, const char *domain) { return errstart(elevel, domain); }
void pg_re_throw(void) {
    if (in_cleanup) sim_violation("ERROR re-thrown while memory is being released");
    if (!PG_exception_stack) sim_violation("ERROR outside of any statement: %s", err_text);
    siglongjmp(*PG_exception_stack, 1);
}
void errfinish(const char *file, int line, const char *func) {
    int lev = err_level;
    --err_depth;
    if (lev >= FATAL) sim_violation("the backend was terminated (FATAL/PANIC): %s", err_text);
    if (lev >= ERROR) {
        if (in_cleanup) sim_violation("ERROR raised while memory is being released: %s", err_text);
        pg_re_throw();
    }
    ++n_notices;
}
static int fmt_err(const char *fmt, va_list ap) { return vsnprintf(err_text, sizeof err_text, fmt, ap); }
int errmsg_internal(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fmt_err(fmt, ap); va_end(ap); return 0; }
int errmsg(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fmt_err(fmt, ap); va_end(ap); return 0; }
int errmsg_plural(const char *a, const char *b, unsigned long n, ...) { va_list ap; va_start(ap, n); fmt_err(n == 1 ? a : b, ap); va_end(ap); return 0; }
static int fmt_detail(const char *fmt, va_list ap) { return vsnprintf(err_detail, sizeof err_detail, fmt, ap); }
int errdetail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fmt_detail(fmt, ap); va_end(ap); return 0; }
int errdetail_internal(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fmt_detail(fmt, ap); va_end(ap); return 0; }
int errhint(const char *fmt, ...) { return 0; }
int errcontext_msg(const char *fmt, ...) { return 0; }
int errcode(int c) { return 0; }
int geterrcode(void) { return 0; }
ErrorData *CopyErrorData(void) {
    ErrorData *e = palloc0(sizeof(ErrorData)); e->elevel = ERROR; e->message = pstrdup(err_text); return e;
}
void FreeErrorData(ErrorData *e) { if (e) { if (e->message) pfree(e->message); pfree(e); } }
void FlushErrorState(void) { err_depth = 0; }
void ThrowErrorData(ErrorData *e) { snprintf(err_text, sizeof err_text, "%s", e->message); pg_re_throw(); }
void ReThrowError(ErrorData *e) { ThrowErrorData(e); }
void ExceptionalCondition(const char *a, const char *b, int c) { sim_violation("Assert failed: %s", a); }
void ProcessInterrupts(void) { InterruptPending = 0; }
int pg_snprintf(char *s, size_t n, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(s, n, f, ap); va_end(ap); return r; }
int pg_vsnprintf(char *s, size_t n, const char *f, va_list ap) { return vsnprintf(s, n, f, ap); }
int pg_sprintf(char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(s, 1 << 20, f, ap); va_end(ap); return r; }
int pg_fprintf(FILE *fp, const char *f, ...) { return 0; }
int pg_printf(const char *f, ...) { return 0; }
char *pg_strerror(int e) { return (char *) "error"; }

static void oom(void) {
    errstart(ERROR, NULL);
    errmsg("out of memory");
    errfinish(__FILE__, __LINE__, __func__);
}

/* ---------- memory contexts ---------- */
typedef struct Chunk { struct Chunk *prev, *next; struct SimCtx *cx; uint64_t magic; Size size; uint64_t pad; } Chunk;
typedef struct SimCtx { MemoryContextData h; Chunk list; int deleting; uint64_t magic; } SimCtx;
#define CHM 0x70616c6c6f633131ULL
#define CXM 0x6d63747863747831ULL
static const MemoryContextMethods dummy_methods;

static SimCtx *SC(MemoryContext c) {
    SimCtx *s = (SimCtx *) c;
    if (!c) sim_violation("memory context function called with a NULL context");
    if (s->magic != CXM) sim_violation("use of a memory context that no longer exists");
    return s;
}
/* all backend memory comes from the simulated heap's harness domain, so that
 * the fault seam and accounting for palloc are separate from the C heap's */
static void *raw(size_t n, int junkfill) {
    void *p = sim_pg_alloc(n);
    if (!p) sim_violation("simulated heap exhausted");
    if (junkfill && sim_clobber) memset(p, 0xB6, n);
    return p;
}
static void rawfree(void *p, size_t n) { sim_pg_free(p); }

static void *ctx_alloc(MemoryContext c, Size n, bool noerr) {
    SimCtx *s = SC(c); Chunk *k;
    if (n > MaxAllocHugeSize / 2) { errstart(ERROR, NULL); errmsg("invalid memory alloc request size"); errfinish(0, 0, 0); }
    if (sim_sut_depth && sim_fault_point(FK_PG, n, __builtin_return_address(0), __builtin_frame_address(0))) {
        if (noerr) return NULL;
        oom();
    }
    k = raw(sizeof(Chunk) + n, 1);
    k->cx = s; k->magic = CHM; k->size = n;
    k->prev = s->list.prev; k->next = &s->list; s->list.prev->next = k; s->list.prev = k;
    ++live_chunks;
    return k + 1;
}
static Chunk *chunk_of(void *p, const char *what) {
    Chunk *k = (Chunk *) p - 1;
    if (k->magic == ~CHM) sim_violation("%s of palloc'ed memory that was already freed", what);
    if (k->magic != CHM) sim_violation("%s of a pointer that was not palloc'ed (or was freed with its context)", what);
    return k;
}
static void chunk_free(Chunk *k) {
    k->prev->next = k->next; k->next->prev = k->prev; --live_chunks;
    k->magic = ~CHM; if (sim_clobber) memset(k + 1, 0xDE, k->size);
    rawfree(k, 0);
}
void *MemoryContextAlloc(MemoryContext c, Size n) { return ctx_alloc(c, n, false); }
void *MemoryContextAllocZero(MemoryContext c, Size n) { void *p = ctx_alloc(c, n, false); memset(p, 0, n); return p; }
void *MemoryContextAllocZeroAligned(MemoryContext c, Size n) { return MemoryContextAllocZero(c, n); }
void *MemoryContextAllocHuge(MemoryContext c, Size n) { return ctx_alloc(c, n, false); }
void *MemoryContextAllocExtended(MemoryContext c, Size n, int f) {
    void *p = ctx_alloc(c, n, (f & MCXT_ALLOC_NO_OOM) != 0); if (p && (f & MCXT_ALLOC_ZERO)) memset(p, 0, n); return p; }
void *palloc(Size n) { return ctx_alloc(CurrentMemoryContext, n, false); }
void *palloc0(Size n) { return MemoryContextAllocZero(CurrentMemoryContext, n); }
void *palloc_extended(Size n, int f) { return MemoryContextAllocExtended(CurrentMemoryContext, n, f); }
void pfree(void *p) { chunk_free(chunk_of(p, "pfree")); }
void *repalloc(void *p, Size n) { Chunk *k = chunk_of(p, "repalloc"); void *q = ctx_alloc((MemoryContext) k->cx, n, false); memcpy(q, p, k->size < n ? k->size : n); chunk_free(k); return q; }
void *repalloc_huge(void *p, Size n) { return repalloc(p, n); }
char *MemoryContextStrdup(MemoryContext c, const char *s) { Size n; char *r; if (!s) sim_violation("pstrdup(NULL): the backend would crash"); n = strlen(s) + 1; r = ctx_alloc(c, n, false); memcpy(r, s, n); return r; }
char *pstrdup(const char *s) { return MemoryContextStrdup(CurrentMemoryContext, s); }
char *pnstrdup(const char *s, Size n) { char *r; n = strnlen(s, n); r = palloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
char *psprintf(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return pstrdup(b); }
MemoryContext GetMemoryChunkContext(void *p) { return (MemoryContext) chunk_of(p, "context look-up")->cx; }
Size GetMemoryChunkSpace(void *p) { return chunk_of(p, "size look-up")->size; }
bool MemoryContextIsEmpty(MemoryContext c) { SimCtx *s = SC(c); return s->list.next == &s->list; }
Size MemoryContextMemAllocated(MemoryContext c, bool r) { return 0; }
MemoryContext MemoryContextGetParent(MemoryContext c) { return SC(c)->h.parent; }
void MemoryContextSetIdentifier(MemoryContext c, const char *id) { c->ident = id; }

MemoryContext AllocSetContextCreateInternal(MemoryContext parent, const char *name, Size a, Size b, Size m) {
    SimCtx *s;
    if (sim_sut_depth && sim_fault_point(FK_PG, 0, __builtin_return_address(0), __builtin_frame_address(0))) oom();
    if (parent) SC(parent);
    s = raw(sizeof(SimCtx), 0);
    memset(s, 0, sizeof *s);
    s->magic = CXM;
    s->h.type = T_AllocSetContext; s->h.methods = &dummy_methods; s->h.name = name; s->h.parent = parent;
    s->list.prev = s->list.next = &s->list;
    if (parent) { s->h.nextchild = parent->firstchild; if (parent->firstchild) parent->firstchild->prevchild = (MemoryContext) s; parent->firstchild = (MemoryContext) s; }
    ++live_ctx;
    return (MemoryContext) s;
}
MemoryContext GenerationContextCreate(MemoryContext p, const char *n, Size a, Size b, Size m) { return AllocSetContextCreateInternal(p, n, a, b, m); }
MemoryContext SlabContextCreate(MemoryContext p, const char *n, Size a, Size b) { return AllocSetContextCreateInternal(p, n, a, b, b); }
void MemoryContextRegisterResetCallback(MemoryContext c, MemoryContextCallback *cb) {
    SC(c); cb->next = c->reset_cbs; c->reset_cbs = cb; c->isReset = false;
}
static void call_callbacks(MemoryContext c) {
    MemoryContextCallback *cb;
    while ((cb = c->reset_cbs) != NULL) {
        c->reset_cbs = cb->next;
        ++in_cleanup; ++sim_sut_depth;
        cb->func(cb->arg);
        --sim_sut_depth; --in_cleanup;
    }
}
static void unlink_ctx(MemoryContext c) {
    if (c->parent) {
        if (c->prevchild) c->prevchild->nextchild = c->nextchild; else c->parent->firstchild = c->nextchild;
        if (c->nextchild) c->nextchild->prevchild = c->prevchild;
    }
    c->parent = NULL; c->prevchild = c->nextchild = NULL;
}
void MemoryContextDeleteChildren(MemoryContext c) { SC(c); while (c->firstchild) MemoryContextDelete(c->firstchild); }
static void free_chunks(SimCtx *s) { while (s->list.next != &s->list) chunk_free(s->list.next); }
void MemoryContextDelete(MemoryContext c) {
    SimCtx *s = SC(c);
    if (c == TopMemoryContext) sim_violation("TopMemoryContext deleted");
    if (c == CurrentMemoryContext) sim_violation("the current memory context was deleted");
    if (s->deleting) sim_violation("memory context deleted while it is being deleted");
    s->deleting = 1;
    MemoryContextDeleteChildren(c);
    call_callbacks(c);
    c->ident = NULL;
    unlink_ctx(c);
    free_chunks(s);
    s->magic = 0; --live_ctx;
    rawfree(s, sizeof *s);
}
void MemoryContextResetOnly(MemoryContext c) { SimCtx *s = SC(c); call_callbacks(c); free_chunks(s); }
void MemoryContextReset(MemoryContext c) { MemoryContextDeleteChildren(c); MemoryContextResetOnly(c); }
void MemoryContextSetParent(MemoryContext c, MemoryContext np) {
    SC(c); unlink_ctx(c); c->parent = np;
    if (np) { c->nextchild = np->firstchild; if (np->firstchild) np->firstchild->prevchild = c; np->firstchild = c; }
}

/* ---------- dynahash ---------- */
typedef struct HEnt { struct HEnt *next; uint64_t pad; } HEnt;
struct HTAB { Size ks, es; HashValueFunc hash; HashCompareFunc match; MemoryContext cx; HEnt *head, *freelist; long n; };
static int hash_entries = 0;
static uint64_t fnv(const unsigned char *k, size_t n) { uint64_t h = 1469598103934665603ULL; while (n--) { h ^= *k++; h *= 1099511628211ULL; } return h; }
/* few values, as any user of a hash must cope with collisions */
uint32 hash_bytes(const unsigned char *k, int n) { return (uint32) (fnv(k, n) >> 20 & 31) * 0x01010101u; }
uint64 hash_bytes_extended(const unsigned char *k, int n, uint64 seed) { return (fnv(k, n) >> 20 & 31) * 0x0101010101010101ull ^ seed; }
uint32 hash_bytes_uint32(uint32 k) { return (uint32) fnv((unsigned char *) &k, 4); }
uint32 tag_hash(const void *k, Size n) { return hash_bytes(k, (int) n); }
uint32 string_hash(const void *k, Size n) { return hash_bytes(k, (int) strnlen(k, n)); }
HTAB *hash_create(const char *name, long nelem, const HASHCTL *i, int flags) {
    MemoryContext cx = AllocSetContextCreateInternal((flags & HASH_CONTEXT) ? i->hcxt : TopMemoryContext, name, 0, 0, 0);
    HTAB *t = MemoryContextAllocExtended(cx, sizeof *t, MCXT_ALLOC_NO_OOM);
    if (!t) { MemoryContextDelete(cx); oom(); }          /* (PostgreSQL itself would leak the context here) */
    memset(t, 0, sizeof *t);
    t->cx = cx; t->ks = i->keysize; t->es = i->entrysize;
    if (flags & HASH_FUNCTION) t->hash = i->hash;
    if (flags & HASH_COMPARE) t->match = i->match;
    return t;
}
void *hash_search(HTAB *t, const void *key, HASHACTION act, bool *found) {
    HEnt **p, *e;
    if (!t) sim_violation("hash_search on a NULL hash table: the backend would crash");
    if (t->hash) (void) t->hash(key, t->ks);
    for (p = &t->head; (e = *p) != NULL; p = &e->next)
        if (t->match ? !t->match(e + 1, key, t->ks) : !memcmp(e + 1, key, t->ks)) break;
    if (found) *found = e != NULL;
    switch (act) {
        case HASH_FIND: return e ? e + 1 : NULL;
        case HASH_REMOVE:
            if (e) { *p = e->next; e->next = t->freelist; t->freelist = e; --t->n; --hash_entries; return e + 1; }
            return NULL;
        case HASH_ENTER: case HASH_ENTER_NULL:
            if (e) return e + 1;
            if (t->freelist) { e = t->freelist; t->freelist = e->next; }
            else { e = MemoryContextAllocExtended(t->cx, sizeof(HEnt) + t->es, act == HASH_ENTER_NULL ? MCXT_ALLOC_NO_OOM : 0); if (!e) return NULL; }
            memset(e + 1, 0xB6, t->es);
            memcpy(e + 1, key, t->ks);
            e->next = t->head; t->head = e; ++t->n; ++hash_entries;
            return e + 1;
    }
    return NULL;
}
uint32 get_hash_value(HTAB *t, const void *k) { return t->hash ? t->hash(k, t->ks) : tag_hash(k, t->ks); }
void *hash_search_with_hash_value(HTAB *t, const void *k, uint32 h, HASHACTION a, bool *f) { return hash_search(t, k, a, f); }
long hash_get_num_entries(HTAB *t) { return t->n; }
void hash_destroy(HTAB *t) { if (t) { hash_entries -= (int) t->n; MemoryContextDelete(t->cx); } }
void hash_seq_init(HASH_SEQ_STATUS *s, HTAB *t) { s->hashp = t; s->curEntry = (HASHELEMENT *) t->head; }
void *hash_seq_search(HASH_SEQ_STATUS *s) { HEnt *e = (HEnt *) s->curEntry; if (!e) return NULL; s->curEntry = (HASHELEMENT *) e->next; return e + 1; }
void hash_seq_term(HASH_SEQ_STATUS *s) { }

/* ---------- text, fmgr, SPI ---------- */
text *cstring_to_text_with_len(const char *s, int n) { text *t = palloc(n + VARHDRSZ); SET_VARSIZE(t, n + VARHDRSZ); memcpy(VARDATA(t), s, n); return t; }
text *cstring_to_text(const char *s) { if (!s) sim_violation("cstring_to_text(NULL): the backend would crash"); return cstring_to_text_with_len(s, (int) strlen(s)); }
char *text_to_cstring(const text *t) { Size n = VARSIZE_ANY_EXHDR(t); char *r = palloc(n + 1); memcpy(r, VARDATA_ANY(t), n); r[n] = 0; return r; }
void text_to_cstring_buffer(const text *t, char *d, size_t n) { size_t l = VARSIZE_ANY_EXHDR(t); if (l >= n) l = n - 1; memcpy(d, VARDATA_ANY(t), l); d[l] = 0; }
struct varlena *pg_detoast_datum_copy(struct varlena *v) { Size n = VARSIZE_ANY_EXHDR(v); text *t = palloc(n + VARHDRSZ); SET_VARSIZE(t, n + VARHDRSZ); memcpy(VARDATA(t), VARDATA_ANY(v), n); return t; }
struct varlena *pg_detoast_datum(struct varlena *v) { return VARATT_IS_4B_U(v) ? v : pg_detoast_datum_copy(v); }
struct varlena *pg_detoast_datum_packed(struct varlena *v) { return v; }
int SPI_connect(void) { return SPI_OK_CONNECT; }
int SPI_finish(void) { return SPI_ERROR_UNCONNECTED; }
Datum Float8GetDatum_dummy(void);

/* ---------- tuples ---------- */
static TupleDesc mkdesc(int natts, const Oid *types) {
    TupleDesc d = palloc0(offsetof(struct TupleDescData, attrs) + natts * sizeof(FormData_pg_attribute)); int i;
    d->natts = natts; d->tdtypeid = RECORDOID; d->tdtypmod = -1; d->tdrefcount = -1;
    for (i = 0; i < natts; ++i) { Form_pg_attribute a = TupleDescAttr(d, i); a->atttypid = types[i]; a->attnum = i + 1; a->atttypmod = -1;
        a->attlen = types[i] == TEXTOID ? -1 : types[i] == INT4OID ? 4 : 8; a->attbyval = types[i] != TEXTOID; }
    return d;
}
typedef struct { HeapTupleHeaderData h; uint64_t magic; int natts; Oid types[20]; Datum v[20]; bool n[20]; } SimTup;
#define TUM 0x7475706c65747570ULL

struct PgSite {
    FmgrInfo fi; FunctionCallInfo fc; char fcbuf[SizeForFunctionCallInfo(8)];
    ReturnSetInfo rsi; ExprContext ec; int fn, result_ok; void *qctx;
    int cb_registered; ExprContextCallbackFunction cb; Datum cbarg; MemoryContext qcx;
};
static PgSite *cur_site;

TypeFuncClass get_call_result_type(FunctionCallInfo fc, Oid *o, TupleDesc *d) {
    Oid ty[20]; int n = 0, i;
    if (!cur_site->result_ok) { if (d) *d = NULL; return TYPEFUNC_RECORD; }
    switch (cur_site->fn) {
        case FN_STD: n = 17; for (i = 0; i < n; ++i) ty[i] = TEXTOID; break;
        case FN_PARSE: n = 5; ty[0] = ty[1] = INT4OID; ty[2] = ty[3] = ty[4] = TEXTOID; break;
        case FN_MATCH: n = 2; ty[0] = TEXTOID; ty[1] = FLOAT8OID; break;     /* as declared in the .sql */
        default: return TYPEFUNC_SCALAR;
    }
    if (d) *d = mkdesc(n, ty);
    return TYPEFUNC_COMPOSITE;
}
TupleDesc BlessTupleDesc(TupleDesc d) { return d; }
TupleDesc CreateTupleDescCopy(TupleDesc s) { Size n = offsetof(struct TupleDescData, attrs) + s->natts * sizeof(FormData_pg_attribute); TupleDesc d = palloc(n); memcpy(d, s, n); return d; }
void FreeTupleDesc(TupleDesc d) { pfree(d); }
void DecrTupleDescRefCount(TupleDesc d) { }
void IncrTupleDescRefCount(TupleDesc d) { }
AttInMetadata *TupleDescGetAttInMetadata(TupleDesc d) {
    AttInMetadata *a = palloc0(sizeof *a); a->tupdesc = d; return a;
}
HeapTuple heap_form_tuple(TupleDesc d, Datum *v, bool *nu) {
    HeapTuple t; SimTup *s; int i, natts = d->natts;
    if (natts < 1 || natts > 20) sim_violation("heap_form_tuple with a corrupt tuple descriptor (%d attributes)", natts);
    t = palloc0(sizeof(HeapTupleData)); s = palloc0(sizeof *s);
    t->t_data = (HeapTupleHeader) s; t->t_len = sizeof *s; s->magic = TUM; s->natts = natts;
    for (i = 0; i < natts; ++i) {
        s->types[i] = TupleDescAttr(d, i)->atttypid; s->n[i] = nu[i];
        if (nu[i]) continue;
        if (s->types[i] == TEXTOID) { struct varlena *x = (struct varlena *) DatumGetPointer(v[i]); if (!x) sim_violation("tuple built from a NULL pointer: the backend would crash"); s->v[i] = PointerGetDatum(pg_detoast_datum_copy(x)); }
        else s->v[i] = v[i];
    }
    return t;
}
HeapTuple BuildTupleFromCStrings(AttInMetadata *a, char **v) {
    Datum dv[20]; bool nu[20]; int i;
    for (i = 0; i < a->tupdesc->natts && i < 20; ++i) { nu[i] = v[i] == NULL; dv[i] = v[i] ? PointerGetDatum(cstring_to_text(v[i])) : (Datum) 0; }
    return heap_form_tuple(a->tupdesc, dv, nu);
}
void heap_freetuple(HeapTuple t) { pfree(t); }
HeapTuple heap_copytuple(HeapTuple t) { HeapTuple n = palloc0(sizeof(HeapTupleData)); *n = *t; n->t_data = palloc(sizeof(SimTup)); memcpy(n->t_data, t->t_data, sizeof(SimTup)); return n; }
TupleDesc CreateTemplateTupleDesc(int n) { Oid ty[20]; int i; if (n < 1 || n > 20) sim_violation("tuple descriptor of %d attributes", n); for (i = 0; i < n; ++i) ty[i] = TEXTOID; return mkdesc(n, ty); }
void TupleDescInitEntry(TupleDesc d, AttrNumber k, const char *name, Oid ty, int32 mod, int dim) {
    Form_pg_attribute a = TupleDescAttr(d, k - 1); a->atttypid = ty; a->atttypmod = mod;
    a->attlen = ty == TEXTOID ? -1 : ty == INT4OID ? 4 : 8; a->attbyval = ty != TEXTOID; }

/* ---------- string buffers, lists, odds and ends ---------- */
void initStringInfo(StringInfo b) { b->data = palloc(1024); b->maxlen = 1024; b->len = b->cursor = 0; b->data[0] = 0; }
StringInfo makeStringInfo(void) { StringInfo b = palloc(sizeof *b); initStringInfo(b); return b; }
void resetStringInfo(StringInfo b) { b->data[0] = 0; b->len = b->cursor = 0; }
void enlargeStringInfo(StringInfo b, int n) { int m = b->maxlen; if (b->len + n + 1 <= m) return; while (m < b->len + n + 1) m *= 2; b->data = repalloc(b->data, m); b->maxlen = m; }
void appendBinaryStringInfo(StringInfo b, const void *d, int n) { enlargeStringInfo(b, n); memcpy(b->data + b->len, d, n); b->len += n; b->data[b->len] = 0; }
void appendBinaryStringInfoNT(StringInfo b, const void *d, int n) { enlargeStringInfo(b, n); memcpy(b->data + b->len, d, n); b->len += n; }
void appendStringInfoString(StringInfo b, const char *s) { appendBinaryStringInfo(b, s, (int) strlen(s)); }
#undef appendStringInfoCharMacro
void appendStringInfoChar(StringInfo b, char c) { appendBinaryStringInfo(b, &c, 1); }
void appendStringInfoSpaces(StringInfo b, int n) { while (n-- > 0) appendStringInfoChar(b, ' '); }
int appendStringInfoVA(StringInfo b, const char *f, va_list ap) { int room = b->maxlen - b->len, n = vsnprintf(b->data + b->len, room, f, ap); if (n < room) { b->len += n; return 0; } b->data[b->len] = 0; return n + 1; }
void appendStringInfo(StringInfo b, const char *f, ...) { for (;;) { va_list ap; int n; va_start(ap, f); n = appendStringInfoVA(b, f, ap); va_end(ap); if (!n) return; enlargeStringInfo(b, n); } }

static List *list_new(NodeTag t, int n) { List *l = palloc0(sizeof *l); l->type = t; l->length = n; l->max_length = n < 5 ? 5 : n; l->elements = palloc0(l->max_length * sizeof(ListCell)); return l; }
static List *list_grow(List *l, NodeTag t) { if (!l) return list_new(t, 1); if (l->length >= l->max_length) { l->elements = repalloc(l->elements, l->max_length * 2 * sizeof(ListCell)); l->max_length *= 2; } ++l->length; return l; }
List *list_make1_impl(NodeTag t, ListCell a) { List *l = list_new(t, 1); l->elements[0] = a; return l; }
List *list_make2_impl(NodeTag t, ListCell a, ListCell b) { List *l = list_new(t, 2); l->elements[0] = a; l->elements[1] = b; return l; }
List *list_make3_impl(NodeTag t, ListCell a, ListCell b, ListCell c) { List *l = list_new(t, 3); l->elements[0] = a; l->elements[1] = b; l->elements[2] = c; return l; }
List *lappend(List *l, void *d) { l = list_grow(l, T_List); l->elements[l->length - 1].ptr_value = d; return l; }
List *lappend_int(List *l, int d) { l = list_grow(l, T_IntList); l->elements[l->length - 1].int_value = d; return l; }
List *lappend_oid(List *l, Oid d) { l = list_grow(l, T_OidList); l->elements[l->length - 1].oid_value = d; return l; }
List *lcons(void *d, List *l) { l = list_grow(l, T_List); memmove(l->elements + 1, l->elements, (l->length - 1) * sizeof(ListCell)); l->elements[0].ptr_value = d; return l; }
List *list_delete_nth_cell(List *l, int n) {
    if (l->length == 1) { list_free(l); return NIL; }
    memmove(l->elements + n, l->elements + n + 1, (l->length - 1 - n) * sizeof(ListCell)); --l->length; return l; }
List *list_delete_cell(List *l, ListCell *c) { return list_delete_nth_cell(l, (int) (c - l->elements)); }
List *list_delete_first(List *l) { return l ? list_delete_nth_cell(l, 0) : NIL; }
List *list_delete_last(List *l) { return l ? list_delete_nth_cell(l, l->length - 1) : NIL; }
List *list_delete_ptr(List *l, void *d) { int i; for (i = 0; l && i < l->length; ++i) if (l->elements[i].ptr_value == d) return list_delete_nth_cell(l, i); return l; }
bool list_member_ptr(const List *l, const void *d) { int i; for (i = 0; l && i < l->length; ++i) if (l->elements[i].ptr_value == d) return true; return false; }
List *list_copy(const List *o) { List *l; if (!o) return NIL; l = list_new(o->type, o->length); memcpy(l->elements, o->elements, o->length * sizeof(ListCell)); return l; }
List *list_concat(List *a, const List *b) { int i; if (!b) return a; if (!a) return list_copy(b); for (i = 0; i < b->length; ++i) { a = list_grow(a, a->type); a->elements[a->length - 1] = b->elements[i]; } return a; }
List *list_truncate(List *l, int n) { if (n < 1) return NIL; if (l && n < l->length) l->length = n; return l; }
void list_free(List *l) { if (!l) return; pfree(l->elements); pfree(l); }
void list_free_deep(List *l) { int i; if (!l) return; for (i = 0; i < l->length; ++i) pfree(l->elements[i].ptr_value); list_free(l); }

unsigned char pg_tolower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
unsigned char pg_toupper(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int pg_strncasecmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = pg_tolower(*a), y = pg_tolower(*b); if (x != y) return (int) x - y; if (!x) break; } return 0; }
int pg_strcasecmp(const char *a, const char *b) { return pg_strncasecmp(a, b, (size_t) -1); }
int GetDatabaseEncoding(void) { return PG_UTF8; }
int pg_get_client_encoding(void) { return PG_UTF8; }
int pg_mblen(const char *s) { unsigned char c = (unsigned char) *s; return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
void check_stack_depth(void) { }
bool stack_is_too_deep(void) { return false; }
void on_proc_exit(pg_on_exit_callback f, Datum a) { }
void before_shmem_exit(pg_on_exit_callback f, Datum a) { }
Datum hash_any(const unsigned char *k, int n) { return UInt32GetDatum(hash_bytes(k, n)); }
Datum HeapTupleHeaderGetDatum(HeapTupleHeader h) { return PointerGetDatum(h); }

/* ---------- set-returning functions ---------- */
void RegisterExprContextCallback(ExprContext *e, ExprContextCallbackFunction f, Datum arg) { cur_site->cb = f; cur_site->cbarg = arg; cur_site->cb_registered = 1; }
void UnregisterExprContextCallback(ExprContext *e, ExprContextCallbackFunction f, Datum arg) { cur_site->cb_registered = 0; }
static void shutdown_multi(Datum arg) {
    FmgrInfo *fi = (FmgrInfo *) DatumGetPointer(arg); FuncCallContext *f = fi->fn_extra;
    fi->fn_extra = NULL;
    MemoryContextDelete(f->multi_call_memory_ctx);
}
FuncCallContext *init_MultiFuncCall(FunctionCallInfo fc) {
    FuncCallContext *f; MemoryContext m;
    if (!fc->resultinfo || !IsA(fc->resultinfo, ReturnSetInfo)) { errstart(ERROR, 0); errmsg("set-valued function called in context that cannot accept a set"); errfinish(0, 0, 0); }
    if (fc->flinfo->fn_extra) { errstart(ERROR, 0); errmsg_internal("init_MultiFuncCall cannot be called more than once"); errfinish(0, 0, 0); }
    m = AllocSetContextCreateInternal(fc->flinfo->fn_mcxt, "SRF multi-call context", 0, 0, 0);
    f = MemoryContextAllocZero(m, sizeof *f);
    f->multi_call_memory_ctx = m;
    fc->flinfo->fn_extra = f;
    RegisterExprContextCallback(NULL, shutdown_multi, PointerGetDatum(fc->flinfo));
    return f;
}
FuncCallContext *per_MultiFuncCall(FunctionCallInfo fc) { return fc->flinfo->fn_extra; }
void end_MultiFuncCall(FunctionCallInfo fc, FuncCallContext *f) {
    UnregisterExprContextCallback(NULL, shutdown_multi, PointerGetDatum(fc->flinfo));
    shutdown_multi(PointerGetDatum(fc->flinfo));
}

/* ---------- engine side ---------- */
extern Datum as_standardize(PG_FUNCTION_ARGS), as_parse(PG_FUNCTION_ARGS), as_match(PG_FUNCTION_ARGS), as_compile_lexicon(PG_FUNCTION_ARGS);
void pg_init(void) {
    TopMemoryContext = AllocSetContextCreateInternal(NULL, "TopMemoryContext", 0, 0, 0);
    CurrentMemoryContext = TopMemoryContext;
    ErrorContext = AllocSetContextCreateInternal(TopMemoryContext, "ErrorContext", 0, 0, 0);
    MessageContext = AllocSetContextCreateInternal(TopMemoryContext, "MessageContext", 0, 0, 0);
    CacheMemoryContext = AllocSetContextCreateInternal(TopMemoryContext, "CacheMemoryContext", 0, 0, 0);
    TopTransactionContext = CurTransactionContext = AllocSetContextCreateInternal(TopMemoryContext, "TopTransactionContext", 0, 0, 0);
}
void *pg_ctx_new(const char *n) { return AllocSetContextCreateInternal(TopMemoryContext, n, 0, 0, 0); }
void *pg_ctx_child(void *p, const char *n) { return AllocSetContextCreateInternal(p, n, 0, 0, 0); }
void pg_ctx_delete(void *c) { CurrentMemoryContext = TopMemoryContext; MemoryContextDelete(c); }
void pg_ctx_reset(void *c) { CurrentMemoryContext = TopMemoryContext; MemoryContextReset(c); }
PgSite *pg_site_new(void *q, int fn) {
    PgSite *s = raw(sizeof *s, 0); memset(s, 0, sizeof *s);
    s->fn = fn; s->qctx = q; s->fi.fn_nargs = 5; s->fi.fn_strict = true; s->fi.fn_retset = fn == FN_PARSE || fn == FN_MATCH; s->fi.fn_mcxt = q; s->fi.fn_oid = 10000 + fn;
    s->fi.fn_addr = fn == FN_STD ? as_standardize : fn == FN_PARSE ? as_parse : fn == FN_MATCH ? as_match : as_compile_lexicon;
    s->fc = (FunctionCallInfo) s->fcbuf;
    s->rsi.type = T_ReturnSetInfo; s->rsi.allowedModes = SFRM_ValuePerCall; s->rsi.econtext = &s->ec; s->ec.type = T_ExprContext;
    InitFunctionCallInfoData(*s->fc, &s->fi, 5, InvalidOid, NULL, s->fi.fn_retset ? (Node *) &s->rsi : NULL);
    return s;
}
void pg_site_forget(PgSite *s) { rawfree(s, sizeof *s); }
void pg_site_args(PgSite *s, void *cx, int n, const char **a, int shorthdr) {
    MemoryContext o = MemoryContextSwitchTo(cx); int i;
    s->fc->nargs = (short) n;
    for (i = 0; i < n; ++i) {
        size_t l = strlen(a[i]);
        if (shorthdr && l + 1 < 126) { char *t = palloc(l + 1); SET_VARSIZE_SHORT(t, l + 1); memcpy(t + 1, a[i], l); s->fc->args[i].value = PointerGetDatum(t); }
        else s->fc->args[i].value = PointerGetDatum(cstring_to_text_with_len(a[i], (int) l));
        s->fc->args[i].isnull = false;
    }
    MemoryContextSwitchTo(o);
}
static char *dup_h(const char *p, size_t n) { char *r = raw(n + 1, 0); memcpy(r, p, n); r[n] = 0; return r; }
static void get_text(Datum d, char **o) { struct varlena *x = (struct varlena *) DatumGetPointer(d); if (!x) sim_violation("NULL pointer returned as text"); *o = dup_h(VARDATA_ANY(x), VARSIZE_ANY_EXHDR(x)); }
static __attribute__((noinline)) void dirty_stack(void) { volatile unsigned char b[24576]; memset((void *) b, 0x9C, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
void pg_call(PgSite *s, void *pt, int result_ok, PgRow *out) {
    sigjmp_buf jb, *save = PG_exception_stack; MemoryContext old = CurrentMemoryContext; int depth = sim_sut_depth;
    memset(out, 0, sizeof *out);
    s->result_ok = result_ok; cur_site = s;
    if (sigsetjmp(jb, 0) == 0) {
        Datum d; char b[64]; int i;
        PG_exception_stack = &jb;
        CurrentMemoryContext = pt;
        s->fc->isnull = false; s->rsi.isDone = ExprSingleResult; s->rsi.returnMode = SFRM_ValuePerCall;
        dirty_stack();
        sim_enter();
        d = s->fi.fn_addr(s->fc);
        sim_leave();
        PG_exception_stack = save;
        if (CurrentMemoryContext != pt) sim_violation("a function returned with a different current memory context");
        if (s->fi.fn_retset && s->rsi.isDone == ExprEndResult) out->status = 2;
        else if (s->fc->isnull) { out->status = 0; out->ncols = 0; }
        else if (s->fn == FN_COMPILE) { out->ncols = 1; get_text(d, &out->val[0]); }
        else {
            SimTup *t = (SimTup *) DatumGetPointer(d);
            if (!t || t->magic != TUM) sim_violation("a function returned something that is not a live tuple");
            out->ncols = t->natts;
            for (i = 0; i < t->natts; ++i) {
                if (t->n[i]) continue;
                if (t->types[i] == TEXTOID) get_text(t->v[i], &out->val[i]);
                else if (t->types[i] == INT4OID) { snprintf(b, sizeof b, "%d", DatumGetInt32(t->v[i])); out->val[i] = dup_h(b, strlen(b)); }
                else { snprintf(b, sizeof b, "%.17g", DatumGetFloat8(t->v[i])); out->val[i] = dup_h(b, strlen(b)); }
            }
        }
    } else {
        PG_exception_stack = save; sim_sut_depth = depth; CurrentMemoryContext = TopMemoryContext;
        out->status = 1;
        snprintf(out->err, sizeof out->err, "%s", err_text);
    }
    CurrentMemoryContext = old; cur_site = NULL; sim_sut_depth = depth;
}
int pg_site_srf_active(PgSite *s) { return s->cb_registered; }
void pg_site_shutdown_srf(PgSite *s) { if (s->cb_registered) { s->cb_registered = 0; CurrentMemoryContext = TopMemoryContext; s->cb(s->cbarg); } }
void pg_row_free(PgRow *r) { int i; for (i = 0; i < 20; ++i) if (r->val[i]) sim_pg_free(r->val[i]); memset(r->val, 0, sizeof r->val); }
uint64_t pg_live_chunks(void) { return live_chunks; }
int pg_live_contexts(void) { return live_ctx; }
int pg_hash_entries(void) { return hash_entries; }
uint64_t pg_notices(void) { return n_notices; }
