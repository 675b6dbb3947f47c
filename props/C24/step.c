// One byte of a line and one chunk of the body, from every state; growth of the line buffer.
//@file funcs=http_parser_process,expand_line_buffer loops=step.json
//@obl h_status kind=proof abstract=1 unwind=4 replace=parse_status_line:spec_status_line,parse_header_line:spec_header_line,expand_line_buffer:spec_expand standin=h_bytes note="every byte after every line shorter than 2^16, growth failing or not"
//@obl h_header kind=proof abstract=1 unwind=4 replace=parse_status_line:spec_status_line,parse_header_line:spec_header_line,expand_line_buffer:spec_expand standin=h_bytes note="every byte after every line shorter than 2^16, growth failing or not"
//@obl h_body kind=proof unwind=4 standin=h_bytes,h_two0 note="every declared length, every number of bytes before, every chunk shorter than 2^16"
//@obl h_expand kind=proof unwind=3 loops=1 standin=h_bytes,h_memory note="every size below 2^60"
#include "vh.h"
#include "src/transport/internal/sthttp_client_internal.h"
#include "src/transport/internal/sthttp_transport_internal.h"
#include <string.h>
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
static void *spy_realloc(void *p, size_t n);
#undef realloc
#define realloc(p, n) spy_realloc(p, n)
#include "src/transport/mcp_sthttp_http_parser.c"
#undef realloc
size_t g_asked; char g_block[1];
static void *spy_realloc(void *p, size_t n) { CHECK(p == (void *)g_block, "its own block"); g_asked = n; return in_bool("room") ? g_block : NULL; }
int g_status, g_headers; size_t g_w, g_n; char g_watched; bool g_fails, g_no_room;
#ifndef REPLAY
static int line_is(http_parser_context_t *p, const char *l)
{ CHECK(l == p->line_buffer, "the line"); if (g_w + 1 < g_n) CHECK(l[g_w] == g_watched, "as received"); CHECK(l[g_n] == 0 || (g_n > 0 && l[g_n - 1] == 0), "to its end"); return g_fails ? -1 : 0; }
int spec_status_line(http_parser_context_t *p, const char *l) { g_status++; return line_is(p, l); }
int spec_header_line(http_parser_context_t *p, const char *l) { g_headers++; return line_is(p, l); }
int spec_expand(http_parser_context_t *p, size_t need)
{
    if (need <= p->line_buffer_size) return 0;
    if (g_no_room) return -1;
    char *n = (char *)(vh_malloc)(need); if (g_w < p->line_buffer_size && g_w < need) n[g_w] = p->line_buffer[g_w];
    p->line_buffer = n; p->line_buffer_size = need; return 0;
}
#endif
static void byte(bool first)
{
#ifdef REPLAY
    vh_stop("contracts");
#endif
    vh_reset();
    http_parser_context_t p; memset(&p, 0, sizeof p); p.state = first ? HTTP_PARSE_STATE_STATUS_LINE : HTTP_PARSE_STATE_HEADERS;
    size_t cap = in_u16("capacity"), n = in_u16("length"); ASSUME(cap >= 1 && n < cap); g_n = n;
    p.line_buffer = (char *)(vh_malloc)(cap); p.line_buffer_size = cap; p.line_buffer_used = n;
    g_w = in_u16("watched"); ASSUME(g_w < cap); g_watched = p.line_buffer[g_w]; g_status = g_headers = 0; g_fails = in_bool("line fails"); g_no_room = in_bool("no room");
    char c = (char)in_u8("byte"); http_response_t out;
    int r = http_parser_process(&p, &c, 1, &out);
    if (c == '\n') { CHECK(g_status == first && g_headers == !first, "the line is complete"); if (g_fails) CHECK(r == -1 && p.state == HTTP_PARSE_STATE_ERROR, "an error"); else CHECK(r == 0 && p.line_buffer_used == 0, "and a new one starts"); }
    else {
        CHECK(g_status == 0 && g_headers == 0, "inside the line");
        if (r == 0) { CHECK(p.line_buffer_used == n + 1 && p.line_buffer_used < p.line_buffer_size && p.line_buffer[n] == c, "added to it"); if (g_w < n) CHECK(p.line_buffer[g_w] == g_watched, "behind what is there"); }
        else CHECK(r == -1 && g_no_room && p.state == HTTP_PARSE_STATE_ERROR, "an error only without memory");
    }
    REACH("done");
}
void h_status(void) { byte(true); }
void h_header(void) { byte(false); }
void h_body(void)
{
    vh_reset();
    http_parser_context_t p; memset(&p, 0, sizeof p); p.state = HTTP_PARSE_STATE_BODY; p.has_content_length = true;
    p.content_length = in_size("length"); p.body_bytes_received = in_size("before"); ASSUME(p.body_bytes_received < p.content_length); p.status_code = in_i32("status");
    size_t n = in_u16("chunk"); char *d = (char *)(vh_malloc)(n ? n : 1); size_t left = p.content_length - p.body_bytes_received; http_response_t out; out.status_code = 0;
    int r = http_parser_process(&p, d, n, &out);
    CHECK(r == (n >= left), "complete when all of it is there");
    if (r == 1) CHECK(p.state == HTTP_PARSE_STATE_COMPLETE && out.status_code == p.status_code && out.content_length == p.content_length, "and reported");
    else CHECK(p.content_length - p.body_bytes_received == left - n && p.state == HTTP_PARSE_STATE_BODY, "counted");
    REACH("done");
}
void h_expand(void)
{
    vh_reset();
    http_parser_context_t p; memset(&p, 0, sizeof p); p.line_buffer = g_block; size_t cap0 = in_size("capacity"), need = in_size("needed"); p.line_buffer_size = cap0; ASSUME(cap0 >= 1 && cap0 < ((size_t)1 << 60) && need < ((size_t)1 << 60));
    int r = expand_line_buffer(&p, need);
    if (r == 0) CHECK(p.line_buffer_size >= need && (p.line_buffer_size == cap0 || p.line_buffer_size == g_asked), "there is room, and it is really there"); else CHECK(r == -1 && p.line_buffer_size == cap0 && need > cap0, "refused only if it had to grow");
    REACH("done");
}
