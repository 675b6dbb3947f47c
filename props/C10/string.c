// String literals: which are rejected, and the bytes of those that are not.
//@file funcs=parse_string,skip_whitespace
//@obl h_any kind=bounded unwind=10 note="every text of up to four bytes after the opening quote"
//@obl h_escape kind=bounded unwind=10 note="every four bytes after backslash-u, cut off anywhere"
//@obl h_pair kind=bounded unwind=20 note="every pair of escapes that starts in the surrogate ranges"
//@obl h_half kind=bounded unwind=12 note="every surrogate escape followed by any three bytes"
#include "vh.h"
#ifndef REPLAY
#define union struct
#endif
#include "src/json/internal/json_internal.h"
#undef union
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
static void *spy_realloc(void *p, size_t n); static void *spy_malloc(size_t n); static void spy_free(void *p);
#undef malloc
#undef realloc
#undef free
#define malloc(n) spy_malloc(n)
#define realloc(p, n) spy_realloc(p, n)
#define free(p) spy_free(p)
#include "src/json/mcp_json_parser.c"
#undef malloc
#undef realloc
#undef free
/* one block of storage at a time; growth with real memory is in long.c */
static char g_block[60]; static int g_live; static size_t g_size;
static void *spy_malloc(size_t n) { if (n > 60 || g_live) DETACH("storage"); g_live = 1; g_size = n; return g_block; }
static void *spy_realloc(void *p, size_t n) { CHECK(p == (void *)g_block && g_live, "its storage"); if (n > 60 || n < g_size) DETACH("storage"); g_size = n; return g_block; }
static void spy_free(void *p) { if (!p) return; CHECK(p == (void *)g_block && g_live == 1, "released once"); g_live = 0; }
static unsigned char g_out[20]; static int g_n;
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hex4(const char *t) { int v = 0; for (int i = 0; i < 4; i++) { int h = hexval((unsigned char)t[i]); if (h < 0) return -1; v = v * 16 + h; } return v; }
static void put(int c) { g_out[g_n++] = (unsigned char)c; }
/* the meaning of a literal: where it ends, or -1 */
static int reference(const char *t, int max)
{
    int i = 0; g_n = 0;
    if (t[i++] != '"') return -1;
    for (int k = 0; k < max; k++) {
        unsigned char c = (unsigned char)t[i];
        if (c == '"') return i + 1;
        if (c == 0) return -1;
        if (c != '\\') { if (c < 32 && c != 8 && c != 9 && c != 10 && c != 12 && c != 13) return -1; put(c); i++; continue; }
        c = (unsigned char)t[i + 1];
        if (c == '"' || c == '\\' || c == '/') put(c);
        else if (c == 'b') put(8); else if (c == 'f') put(12); else if (c == 'n') put(10); else if (c == 'r') put(13); else if (c == 't') put(9);
        else if (c == 'u') {
            int v = hex4(t + i + 2); if (v <= 0 || (v >= 0xDC00 && v <= 0xDFFF)) return -1;
            if (v >= 0xD800 && v <= 0xDBFF) {
                if (t[i + 6] != '\\' || t[i + 7] != 'u') return -1;
                int w = hex4(t + i + 8); if (w < 0xDC00 || w > 0xDFFF) return -1;
                v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00); i += 6;
            }
            if (v < 0x80) put(v);
            else if (v < 0x800) { put(0xC0 | v >> 6); put(0x80 | (v & 63)); }
            else if (v < 0x10000) { put(0xE0 | v >> 12); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
            else { put(0xF0 | v >> 18); put(0x80 | (v >> 12 & 63)); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
            i += 4;
        } else return -1;
        i += 2;
    }
    return -1;
}
static void compare(const char *t, int max)
{
    const char *p = t; int end = reference(t, max);
    char *s = parse_string(&p); int failed = vh_alloc_failed;
    if (!s) CHECK(end < 0 || failed, "a valid literal is accepted");
    else {
        CHECK(end >= 0, "an invalid literal is rejected");
        if (end >= 0) { CHECK(p == t + end, "read to its end"); for (int i = 0; i < g_n; i++) CHECK((unsigned char)s[i] == g_out[i], "the bytes it stands for"); CHECK(s[g_n] == 0, "and no more"); }
        CHECK(g_live && (size_t)g_n < g_size, "inside its storage"); spy_free(s);
    }
    CHECK(!g_live, "nothing is lost");
}
void h_any(void)
{
    for (int n = 0; n < 5; n++) { char t[6]; t[0] = '"'; for (int i = 0; i < n; i++) { t[1 + i] = (char)in_u8("byte"); ASSUME(t[1 + i]); } t[n + 1] = 0; compare(t, 6); }
    char q[2]; q[0] = (char)in_u8("quote"); q[1] = 0; ASSUME(q[0] != '"'); const char *p = q; CHECK(parse_string(&p) == NULL, "starts with a quote"); 
    REACH("done");
}
void h_escape(void)
{
    for (int n = 0; n < 5; n++) { char t[9]; t[0] = '"'; t[1] = '\\'; t[2] = 'u'; for (int i = 0; i < n; i++) { t[3 + i] = (char)in_u8("byte"); ASSUME(t[3 + i]); } t[3 + n] = n == 4 ? '"' : 0; t[n == 4 ? 8 : 3 + n] = 0; compare(t, 8); }
    REACH("done");
}
static char digit(unsigned v, int upper) { return (char)(v < 10 ? '0' + v : (upper ? 'A' : 'a') + v - 10); }
void h_pair(void)
{
    char t[15]; t[0] = '"'; t[1] = '\\'; t[2] = 'u'; t[7] = '\\'; t[8] = 'u'; t[13] = '"'; t[14] = 0;
    bool up = in_bool("upper"); unsigned a = in_u16("first"), b = in_u16("second");
    ASSUME(a >= 0xD800 && a < 0xE000);
    for (int i = 0; i < 4; i++) { t[3 + i] = digit(a >> (12 - 4 * i) & 15, up); t[9 + i] = digit(b >> (12 - 4 * i) & 15, up); }
    compare(t, 10);
    REACH("done");
}
void h_half(void)
{
    char t[8]; t[0] = '"'; t[1] = '\\'; t[2] = 'u'; unsigned a = in_u16("first"); ASSUME(a >= 0xD800 && a < 0xE000);
    for (int i = 0; i < 4; i++) t[3 + i] = digit(a >> (12 - 4 * i) & 15, 0);
    char u[11]; for (int i = 0; i < 7; i++) u[i] = t[i]; for (int i = 7; i < 10; i++) { u[i] = (char)in_u8("rest"); ASSUME(u[i]); } u[10] = 0; compare(u, 8);
    REACH("done");
}
