#define VH_IMPL 1
#include "vh.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef time

int vh_alloc_may_fail = 0;
long vh_live = 0;
int vh_alloc_failed = 0;
int vh_clock_mode = 0;
time_t vh_now = 0;

int vh_fail_at = -1, vh_fail_from = -1, vh_alloc_no = 0;
void vh_reset(void)
{
    vh_alloc_may_fail = 0; vh_live = 0; vh_alloc_failed = 0; vh_clock_mode = 0; vh_now = 0;
    vh_fail_at = -1; vh_fail_from = -1; vh_alloc_no = 0;
}
static int vh_fails(void)
{
    if (vh_fail_at >= 0 || vh_fail_from >= 0) {
        int k = vh_alloc_no++;
        if (k == vh_fail_at || (vh_fail_from >= 0 && k >= vh_fail_from)) { vh_alloc_failed++; return 1; }
    }
    if (vh_alloc_may_fail && in_bool("alloc_fails")) { vh_alloc_failed++; return 1; }
    return 0;
}

#ifndef VH_MAX_ALLOC
#define VH_MAX_ALLOC ((size_t)1 << 40)
#endif

void *vh_malloc(size_t n)
{
    if (n > VH_MAX_ALLOC || vh_fails()) return NULL;
    void *p = malloc(n);
#ifndef REPLAY
    __CPROVER_assume(p != NULL);
#endif
    if (p) vh_live++;
    return p;
}
void *vh_calloc(size_t n, size_t s)
{
    if (s && n > VH_MAX_ALLOC / s) return NULL;
    if (vh_fails()) return NULL;
    void *p = calloc(n, s);
#ifndef REPLAY
    __CPROVER_assume(p != NULL);
#endif
    if (p) vh_live++;
    return p;
}
void *vh_realloc(void *q, size_t n)
{
    if (n > VH_MAX_ALLOC || vh_fails()) return NULL;
    void *p = realloc(q, n);
#ifndef REPLAY
    __CPROVER_assume(p != NULL);
#endif
    if (!q && p) vh_live++;
    return p;
}
void vh_free(void *p)
{
    if (p) vh_live--;
    free(p);
}
char *vh_strdup(const char *s)
{
    size_t n = strlen(s);
    char *p = vh_malloc(n + 1);
    if (!p) return NULL;
    memcpy(p, s, n + 1);
    return p;
}
time_t vh_time(time_t *t)
{
    time_t v = vh_now;
    if (vh_clock_mode == 0) {
        v = (time_t)in_i64("time");
        /* the clock contract: a sane epoch time */
        ASSUME(v >= 0 && v <= ((time_t)1 << 40));
    }
    if (t) *t = v;
    return v;
}

#ifdef REPLAY
/* input file: one line per input, "<name> <unsigned value>", in trace order */
typedef struct { char name[96]; uint64_t v; int used; } rec;
static rec *recs; static size_t nrec; static int loaded;
static void load(void)
{
    loaded = 1;
    const char *f = getenv("VH_INPUTS");
    FILE *h = f ? fopen(f, "r") : NULL;
    if (!h) return;
    char nm[96]; unsigned long long v;
    while (fscanf(h, "%95s %llu", nm, &v) == 2) {
        recs = realloc(recs, (nrec + 1) * sizeof *recs);
        strcpy(recs[nrec].name, nm); recs[nrec].v = v; recs[nrec].used = 0; nrec++;
    }
    fclose(h);
}
uint64_t vh_next(const char *name, int bytes)
{
    (void)bytes;
    if (!loaded) load();
    for (size_t i = 0; i < nrec; i++)
        if (!recs[i].used && strcmp(recs[i].name, name) == 0) { recs[i].used = 1; return recs[i].v; }
    return 0;
}
void vh_fail(const char *what, const char *file, int line)
{
    fprintf(stderr, "VH-FAIL: %s (%s:%d)\n", what, file, line);
    fflush(stderr);
    _exit(99);
}
void vh_stop(const char *what)
{
    fprintf(stderr, "VH-STOP: precondition not met: %s\n", what);
    fflush(stderr);
    _exit(98);
}
extern void ENTRY(void);
int main(void) { ENTRY(); fprintf(stderr, "VH-OK\n"); fflush(stderr); _exit(0); }
#endif
