// One byte of the stream, from every state of the line; growth of a buffer.
//@file funcs=sse_parser_process,expand_buffer loops=step.json
//@obl h_byte kind=proof unwind=4 replace=process_line:spec_line,expand_buffer:spec_expand standin=h_returns,h_pairs0 note="every byte after every line shorter than 2^16, growth failing or not"
//@obl h_expand kind=proof unwind=3 loops=1 standin=h_pairs0,h_memory note="every capacity and size below 2^60"
#include "vh.h"
#include "src/transport/internal/sthttp_transport_internal.h"
#include <string.h>
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
static void *spy_realloc(void *p, size_t n);
#undef realloc
#define realloc(p, n) spy_realloc(p, n)
#include "src/transport/mcp_sthttp_sse_parser.c"
#undef realloc
size_t g_asked; char g_block[1];
static void *spy_realloc(void *p, size_t n) { CHECK(p == (void *)g_block, "its own block"); g_asked = n; return in_bool("room") ? g_block : NULL; }
int g_lines; size_t g_line_len, g_w; char g_watched; bool g_line_fails, g_completes;
int spec_line(sse_parser_context_t *p)
{ g_lines++; g_line_len = p->line_buffer_length; if (g_w < g_line_len) CHECK(p->line_buffer[g_w] == g_watched, "the line as received"); if (g_line_fails) return -1; if (g_completes) p->state = SSE_PARSE_STATE_EVENT_COMPLETE; return 0; }
bool g_no_room;
#ifndef REPLAY
int spec_expand(char **b, size_t *cap, size_t need)
{
    if (need <= *cap) return 0;
    if (g_no_room) return -1;
    char *n = (char *)(vh_malloc)(need); if (g_w < *cap && g_w < need) n[g_w] = (*b)[g_w];
    *b = n; *cap = need; return 0;
}
#endif
void h_byte(void)
{
#ifdef REPLAY
    vh_stop("contracts");
#endif
    vh_reset();
    sse_parser_context_t p; memset(&p, 0, sizeof p); p.state = SSE_PARSE_STATE_FIELD_NAME;
    size_t cap = in_u16("capacity"), n = in_u16("length"); ASSUME(cap >= 1 && n < cap);
    p.line_buffer = (char *)(vh_malloc)(cap); p.line_buffer_capacity = cap; p.line_buffer_length = n;
    g_w = in_u16("watched"); ASSUME(g_w < cap); g_watched = p.line_buffer[g_w]; g_lines = 0; g_line_fails = in_bool("line fails"); g_completes = in_bool("completes"); g_no_room = in_bool("no room");
    char c = (char)in_u8("byte"); sse_event_t e;
    int r = sse_parser_process(&p, &c, 1, in_bool("out") ? &e : NULL);
    if (c == '\n') { CHECK(g_lines == 1 && g_line_len == n, "the line is complete"); CHECK(g_line_fails ? r == -1 && p.state == SSE_PARSE_STATE_ERROR : p.line_buffer_length == 0, "and a new one starts"); }
    else {
        CHECK(g_lines == 0, "inside the line");
        if (c == '\r') CHECK(r == 0 && p.line_buffer_length == n, "ignored");
        else if (r == 0) { CHECK(p.line_buffer_length == n + 1 && p.line_buffer_length < p.line_buffer_capacity && p.line_buffer[n] == c, "added to it"); if (g_w < n) CHECK(p.line_buffer[g_w] == g_watched, "behind what is there"); }
        else CHECK(r == -1 && g_no_room && p.state == SSE_PARSE_STATE_ERROR, "an error only without memory");
    }
    REACH("done");
}
void h_expand(void)
{
    vh_reset();
    char *b = g_block; size_t cap = in_size("capacity"), need = in_size("needed"), cap0 = cap; ASSUME(cap >= 1 && cap < ((size_t)1 << 60) && need < ((size_t)1 << 60));
    int r = expand_buffer(&b, &cap, need);
    if (r == 0) CHECK(cap >= need && (cap == cap0 || cap == g_asked), "there is room, and it is really there"); else CHECK(r == -1 && cap == cap0 && need > cap0, "refused only if it had to grow");
    REACH("done");
}
