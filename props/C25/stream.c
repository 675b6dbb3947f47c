// Event streams in every split: the events, their fields, nothing lost.
//@file subst=small.json funcs=sse_parser_process,process_line,process_field,expand_buffer,sse_parser_create,sse_parser_destroy,sse_parser_reset
//@file assume="buffers start at 8 bytes instead of 64-1024, so that they have to grow; no NUL bytes in the stream"
//@obl h_pairs0 kind=bounded unwind=40 objbits=14 note="every sequence of two lines of ten kinds (part 1 of 5) before a blank line: whole, and some byte by byte"
//@obl h_pairs1 kind=bounded unwind=40 objbits=14 note="every sequence of two lines of ten kinds (part 2 of 5) before a blank line: whole, and some byte by byte"
//@obl h_pairs2 kind=bounded unwind=40 objbits=14 note="every sequence of two lines of ten kinds (part 3 of 5) before a blank line: whole, and some byte by byte"
//@obl h_pairs3 kind=bounded unwind=40 objbits=14 note="every sequence of two lines of ten kinds (part 4 of 5) before a blank line: whole, and some byte by byte"
//@obl h_pairs4 kind=bounded unwind=40 objbits=14 note="every sequence of two lines of ten kinds (part 5 of 5) before a blank line: whole, and some byte by byte"
//@obl h_splits kind=bounded unwind=72 objbits=14 note="a stream of four events: splits into two chunks, and byte by byte"
//@obl h_returns kind=bounded unwind=40 objbits=14 note="lines ending in carriage return and line feed, split everywhere"
//@obl h_memory kind=bounded unwind=40 objbits=14 note="each allocation failing in turn; reset and destroy in the middle of an event"
#include "vh.h"
#include "src/transport/internal/sthttp_transport_internal.h"
#include <string.h>
static void *loop_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
char *mcp_strdup(const char *s) { int n = 0; while (s[n]) n++; char *p = (char *)malloc((size_t)n + 1); if (p) for (int i = 0; i <= n; i++) p[i] = s[i]; return p; }
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#define memcpy loop_memcpy
#endif
#include "src/transport/mcp_sthttp_sse_parser.c"
#undef memcpy
/* the meaning of a stream, line by line: calls found() for every event */
#define MAXV 24
typedef struct { char v[MAXV]; int n; bool set; } text_t;
static text_t r_id, r_type, r_data; static int r_pos;
static bool is(const char *a, int n, const char *b) { for (int i = 0; i < n; i++) if (!b[i] || a[i] != b[i]) return false; return !b[n]; }
static void assign(text_t *t, const char *s, int n) { t->n = 0; for (int i = 0; i < n; i++) t->v[t->n++] = s[i]; t->set = true; }
static bool ref_next(const char *s)
{
    r_id.set = r_type.set = r_data.set = false; r_data.n = 0;
    for (int k = 0; k < 8; k++) {
        char line[32]; int n = 0; while (s[r_pos] && s[r_pos] != '\n') { if (s[r_pos] != '\r') line[n++] = s[r_pos]; r_pos++; }
        if (!s[r_pos]) return false;
        r_pos++;
        if (n == 0) return true;
        int c = 0; while (c < n && line[c] != ':') c++;
        int v = c < n ? c + 1 : n; if (v < n && line[v] == ' ') v++;
        if (is(line, c, "id")) assign(&r_id, line + v, n - v);
        else if (is(line, c, "event")) assign(&r_type, line + v, n - v);
        else if (is(line, c, "data")) { if (r_data.set) r_data.v[r_data.n++] = '\n'; for (int i = v; i < n; i++) r_data.v[r_data.n++] = line[i]; r_data.set = true; }
    }
    return false;
}
static bool eq(const char *got, const text_t *t) { if (!t->set) return got == NULL; if (!got) return false; for (int i = 0; i < t->n; i++) if (got[i] != t->v[i]) return false; return got[t->n] == 0; }
static void drop(sse_event_t *e) { free(e->id); free(e->event); free(e->data); }
static sse_parser_context_t *g_p; static const char *g_s;
static void feed(const char *d, int n)
{
    int at = 0;
    while (at < n) {
        sse_event_t e; int r = sse_parser_process(g_p, d + at, (size_t)(n - at), &e);
        CHECK(r == 0 || r == 1, "no stream is an error");
        CHECK(g_p->consumed > 0 && g_p->consumed <= (size_t)(n - at), "it goes on");
        if (r == 0) CHECK(g_p->consumed == (size_t)(n - at), "all of it");
        if (r == 1) { bool any = ref_next(g_s); CHECK(any && r_pos <= (int)(d - g_s) + at + (int)g_p->consumed, "an event of the stream"); CHECK(r_pos == (int)(d - g_s) + at + (int)g_p->consumed, "as soon as it is complete"); CHECK(eq(e.id, &r_id) && eq(e.event, &r_type) && eq(e.data, &r_data), "its fields"); drop(&e); }
        at += (int)g_p->consumed; if (r < 0 || g_p->consumed == 0) return;
    }
}
static void finish(void) { CHECK(!ref_next(g_s), "every event was found"); sse_parser_destroy(g_p); CHECK(vh_live == 0, "nothing is lost"); }
static int len(const char *s) { int n = 0; while (s[n]) n++; return n; }
static void whole(const char *s) { g_s = s; r_pos = 0; g_p = sse_parser_create(); feed(s, len(s)); finish(); }
static void bytes(const char *s) { g_s = s; r_pos = 0; g_p = sse_parser_create(); int n = len(s); for (int i = 0; i < n; i++) feed(s + i, 1); finish(); }
static const char *L[10] = {"data: x", "data:", "data:  y", "id:7", "event: e", ":c", "", "data", "dat:z", "data:p:q"};
static char g_t[60];
static int add(int w, const char *s) { for (int i = 0; s[i]; i++) g_t[w++] = s[i]; g_t[w++] = '\n'; return w; }
static void pairs(int from, int to)
{
    for (int a = from; a < to; a++) for (int b = 0; b < 10; b++) { int w = add(0, L[a]); w = add(w, L[b]); w = add(w, ""); g_t[w] = 0; whole(g_t); if ((a + b) % 4 == 1) bytes(g_t); }
    REACH("done");
}
void h_pairs0(void) { pairs(0, 2); }
void h_pairs1(void) { pairs(2, 4); }
void h_pairs2(void) { pairs(4, 6); }
void h_pairs3(void) { pairs(6, 8); }
void h_pairs4(void) { pairs(8, 10); }
static const char S[] = "id: 1\ndata: abcdefgh\ndata: i\n\n: hi\nevent:go\n\ndata\n\nid:\nid: 22\ndata:z\n\ndata: cut";
static const char SR[] = "id: 1\r\ndata: a\r\n\r\ndata:b\r\n\r\n";
void h_splits(void)
{
    whole(S); bytes(S);
    int n = len(S); for (int k = 1; k < n; k += 7) { g_s = S; r_pos = 0; g_p = sse_parser_create(); feed(S, k); feed(S + k, n - k); finish(); }
    REACH("done");
}
void h_returns(void)
{
    whole(SR); bytes(SR);
    int n = len(SR); for (int k = 1; k < n; k++) { g_s = SR; r_pos = 0; g_p = sse_parser_create(); feed(SR, k); feed(SR + k, n - k); finish(); }
    REACH("done");
}
void h_memory(void)
{
    static const char *T = "id: 1\nevent: xyz\ndata: abcdef\ndata: i\n\n";
    for (int k = -1; k < 22; k++) {
        vh_fail_point(k); g_p = sse_parser_create(); CHECK((g_p != NULL) == !vh_alloc_failed, "created unless there is no memory");
        if (g_p) { sse_event_t e; memset(&e, 0, sizeof e); int r = sse_parser_process(g_p, T, (size_t)len(T), &e); CHECK(r == 1 || vh_alloc_failed, "an event unless there is no memory"); if (r == 1) drop(&e); else CHECK(sse_parser_has_error(g_p), "an error if there is not"); vh_fail_point(-1); sse_parser_destroy(g_p); }
        vh_fail_point(-1); CHECK(vh_live == 0, "nothing is lost");
    }
    for (int k = 0; k < len(T); k += 3) {
        sse_event_t e; g_p = sse_parser_create(); sse_parser_process(g_p, T, (size_t)k, &e); sse_parser_reset(g_p); CHECK(!sse_parser_is_complete(g_p) && !sse_parser_has_error(g_p), "ready again");
        g_s = "data:n\n\n"; r_pos = 0; feed(g_s, 8); finish();
    }
    g_p = sse_parser_create(); CHECK(sse_parser_process(g_p, T, (size_t)len(T), NULL) == 0 && sse_parser_is_complete(g_p), "complete, kept"); sse_parser_destroy(g_p); CHECK(vh_live == 0, "nothing is lost");
    CHECK(sse_parser_process(NULL, T, 1, NULL) == -1, "no parser"); sse_parser_destroy(NULL);
    REACH("done");
}
