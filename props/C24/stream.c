// Whole responses in every split: status, length, completion.
//@file subst=small.json funcs=http_parser_process,parse_status_line,parse_header_line,expand_line_buffer,http_parser_create,http_parser_destroy,http_parser_reset
//@file assume="the line buffer starts at 16 bytes instead of 1024, so that it has to grow; sscanf and strtoul by their contracts; no NUL bytes in the headers"
//@obl h_two0 kind=bounded unwind=90 objbits=12 note="one response in every other split into two chunks"
//@obl h_two1 kind=bounded unwind=90 objbits=12 note="one response in every other split into two chunks"
//@obl h_two2 kind=bounded unwind=90 objbits=12 note="one response in every other split into two chunks"
//@obl h_two3 kind=bounded unwind=90 objbits=12 note="one response in every other split into two chunks"
//@obl h_two4 kind=bounded unwind=90 objbits=12 note="one response in every other split into two chunks"
//@obl h_two5 kind=bounded unwind=90 objbits=12 note="one response in every other split into two chunks"
//@obl h_bytes kind=bounded unwind=90 objbits=12 note="seven responses and streams that are none, whole and byte by byte"
//@obl h_memory kind=bounded unwind=90 objbits=12 note="each allocation failing in turn; reset in the middle of a response"
#include "vh.h"
#include "src/transport/internal/sthttp_client_internal.h"
#include "src/transport/internal/sthttp_transport_internal.h"
#include <string.h>
static void *loop_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
static const char *loop_strstr(const char *h, const char *n) { for (int i = 0; ; i++) { int k = 0; while (n[k] && h[i + k] == n[k]) k++; if (!n[k]) return h + i; if (!h[i]) return NULL; } }
static const char *loop_strchr(const char *h, int c) { for (int i = 0; ; i++) { if (h[i] == (char)c) return h + i; if (!h[i]) return NULL; } }
static unsigned long spec_strtoul(const char *s) { unsigned long v = 0; int i = 0; while (s[i] >= '0' && s[i] <= '9') v = v * 10 + (unsigned long)(s[i++] - '0'); return v; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
/* "HTTP/1.%*d %d" */
static int spec_status(const char *s, int *out)
{
    static const char P[] = "HTTP/1."; int i = 0; for (; i < 7; i++) if (s[i] != P[i]) return -1;
    if (!dig(s[i])) return 0;
    while (dig(s[i])) i++;
    while (s[i] == ' ' || s[i] == '\t' || s[i] == '\r') i++;
    if (!dig(s[i])) return 0;
    int v = 0; while (dig(s[i])) v = v * 10 + (s[i++] - '0');
    *out = v; return 1;
}
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#define memcpy loop_memcpy
#define strstr(a, b) loop_strstr(a, b)
#define strchr(a, b) loop_strchr(a, b)
#define strtoul(a, b, c) spec_strtoul(a)
#define sscanf(s, f, o) spec_status(s, o)
#undef tolower
#define tolower(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
#endif
#include "src/transport/mcp_sthttp_http_parser.c"
#undef memcpy
typedef struct { const char *text; int status; size_t length; int end; } doc_t; /* end: bytes until complete, -1 never, -2 an error */
static const doc_t D[] = {
    {"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX: y\r\n\r\nabcdeEXTRA", 200, 5, 49},
    {"HTTP/1.0 404 No\nCONTENT-length:2\n\n\r\n", 404, 2, 36},
    {"HTTP/1.1 204 x\r\ncontent-length: 0\r\n\r\nmore", 204, 0, 37},
    {"HTTP/1.1 202 Accepted\r\nConnection: close\r\n\r\n", 202, 0, 44},
    {"HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nabcde", 0, 0, -1},
    {"HTTP/1.1 200 OK\r\nno colon\r\n\r\n", 0, 0, -2},
    {"ICY 200 OK\r\n\r\n", 0, 0, -2},
};
static int len(const char *s) { int n = 0; while (s[n]) n++; return n; }
/* feeds one chunk that ends at `to`; true if there is nothing more to do */
static bool feed(http_parser_context_t *p, const doc_t *d, int from, int to)
{
    http_response_t r; memset(&r, 0, sizeof r);
    int x = http_parser_process(p, d->text + from, (size_t)(to - from), &r);
    if (x == 1) { CHECK(d->end >= 0 && to >= d->end && http_parser_is_complete(p), "complete, not before its end"); CHECK(r.status_code == d->status && r.content_length == d->length, "status and length"); return true; }
    if (x == -1) { CHECK(d->end == -2 && http_parser_has_error(p), "an error, and it is one"); return true; }
    CHECK(x == 0 && (d->end < 0 || to < d->end), "more needed, but not after its end"); return false;
}
static void end(http_parser_context_t *p, const doc_t *d, bool done) { CHECK(done == (d->end != -1), "an answer"); http_parser_destroy(p); CHECK(vh_live == 0, "nothing is lost"); }
static void two(int i, int from) { int n = len(D[i].text); for (int k = from; k < n; k += 2) { http_parser_context_t *p = http_parser_create(); bool x = feed(p, &D[i], 0, k); if (!x) x = feed(p, &D[i], k, n); end(p, &D[i], x); } REACH("done"); }
void h_two0(void) { two(0, 1); }
void h_two1(void) { two(0, 2); }
void h_two2(void) { two(1, 1); }
void h_two3(void) { two(1, 2); }
void h_two4(void) { two(2, 1); }
void h_two5(void) { two(2, 2); }
void h_bytes(void)
{
    for (int i = 0; i < 7; i++) {
        int n = len(D[i].text); http_parser_context_t *p = http_parser_create(); end(p, &D[i], feed(p, &D[i], 0, n));
        p = http_parser_create(); bool x = false; for (int k = 0; k < n && !x; k++) x = feed(p, &D[i], k, k + 1); end(p, &D[i], x);
    }
    REACH("done");
}
void h_memory(void)
{
    http_response_t r;
    for (int k = -1; k < 8; k++) {
        vh_fail_point(k); http_parser_context_t *p = http_parser_create(); CHECK((p != NULL) == !vh_alloc_failed, "created unless there is no memory");
        if (p) { int x = http_parser_process(p, D[0].text, (size_t)len(D[0].text), &r); CHECK(vh_alloc_failed ? x == -1 && http_parser_has_error(p) : x == 1, "an error without memory"); http_parser_destroy(p); }
        vh_fail_point(-1); CHECK(vh_live == 0, "nothing is lost");
    }
    for (int k = 0; k < 44; k += 4) { http_parser_context_t *p = http_parser_create(); http_parser_process(p, D[0].text, (size_t)k, &r); http_parser_reset(p); end(p, &D[3], feed(p, &D[3], 0, len(D[3].text))); }
    REACH("done");
}
