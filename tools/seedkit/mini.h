/* Helpers for demonstrations that run the extension in a stubbed backend. */
#ifndef MINI_H
#define MINI_H
#include "sim.h"
#include "pgstub.h"
#include <string.h>
#define FILT "PUNCT,SPACE,DASH,EMDASH"
static void *mini_pt;
static const char *LEX1 = "LEXICON:\tl\tENG\ten_US\t\nLEXENTRY:\tST\tSTREET\tTYPE\t\nLEXENTRY:\tAVE\tAVENUE\tTYPE\t\n";
static const char *GMR1 = "[ADDRESS]\n@a\n\n[a]\nNUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.9\nWORD TYPE -> STREET SUFTYP -> 0.5\n";
/* one call; result row in *r */
static void call_site(PgSite *s, void *cx, PgRow *r, int n, const char **a) {
    pg_site_args(s, cx, n, a, 0);
    pg_call(s, mini_pt, 1, r);
}
static void std_call(PgSite *s, PgRow *r, const char *addr, const char *g, const char *l) {
    const char *a[5] = { addr, g, l, "en_US", FILT };
    call_site(s, mini_pt, r, 5, a);
}
static int same(const char *got, const char *want) { return got && want ? !strcmp(got, want) : got == want; }
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
#endif
