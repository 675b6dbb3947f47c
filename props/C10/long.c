// Long string literals: growth of the buffer.
//@file funcs=parse_string,skip_whitespace
//@obl h_long kind=bounded unwind=58 note="25-34 bytes before an escape of each width, growth failing in turn"
#include "vh.h"
#ifndef REPLAY
#define union struct
#endif
#include "src/json/internal/json_internal.h"
#undef union
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
#include "src/json/mcp_json_parser.c"
static unsigned char g_out[58]; static int g_n;
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hex4(const char *t) { int v = 0; for (int i = 0; i < 4; i++) { int h = hexval((unsigned char)t[i]); if (h < 0) return -1; v = v * 16 + h; } return v; }
static void put(int c) { g_out[g_n++] = (unsigned char)c; }
/* the meaning of a literal: where it ends, or -1 */
static int reference(const char *t, int max)
{
    int i = 0; g_n = 0;
    if (t[i++] != '"') return -1;
    for (int k = 0; k < max; k++) {
        unsigned char c = (unsigned char)t[i];
        if (c == '"') return i + 1;
        if (c == 0) return -1;
        if (c != '\\') { if (c < 32 && c != 8 && c != 9 && c != 10 && c != 12 && c != 13) return -1; put(c); i++; continue; }
        c = (unsigned char)t[i + 1];
        if (c == '"' || c == '\\' || c == '/') put(c);
        else if (c == 'b') put(8); else if (c == 'f') put(12); else if (c == 'n') put(10); else if (c == 'r') put(13); else if (c == 't') put(9);
        else if (c == 'u') {
            int v = hex4(t + i + 2); if (v <= 0 || (v >= 0xDC00 && v <= 0xDFFF)) return -1;
            if (v >= 0xD800 && v <= 0xDBFF) {
                if (t[i + 6] != '\\' || t[i + 7] != 'u') return -1;
                int w = hex4(t + i + 8); if (w < 0xDC00 || w > 0xDFFF) return -1;
                v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00); i += 6;
            }
            if (v < 0x80) put(v);
            else if (v < 0x800) { put(0xC0 | v >> 6); put(0x80 | (v & 63)); }
            else if (v < 0x10000) { put(0xE0 | v >> 12); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
            else { put(0xF0 | v >> 18); put(0x80 | (v >> 12 & 63)); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
            i += 4;
        } else return -1;
        i += 2;
    }
    return -1;
}
static void compare(const char *t, int max)
{
    const char *p = t; int end = reference(t, max);
    char *s = parse_string(&p); int failed = vh_alloc_failed;
    if (!s) CHECK(end < 0 || failed, "a valid literal is accepted");
    else {
        CHECK(end >= 0, "an invalid literal is rejected");
        if (end >= 0) { CHECK(p == t + end, "read to its end"); for (int i = 0; i < g_n; i++) CHECK((unsigned char)s[i] == g_out[i], "the bytes it stands for"); CHECK(s[g_n] == 0, "and no more"); }
        free(s);
    }
    CHECK(vh_live == 0, "nothing is lost");
}
static char g_t[58];
void h_long(void)
{
    static const char *E[] = {"x", "\\n", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83D\\uDe00"};
    for (int n = 25; n < 35; n++) for (int e = 0; e < 6; e++) for (int f = -1; f < 2; f++) {
        if (n < 27 && e < 4) continue;
        if (f == 0 && e) continue;
        int w = 0; g_t[w++] = '"'; for (int i = 0; i < n; i++) g_t[w++] = 'a'; for (int i = 0; E[e][i]; i++) g_t[w++] = E[e][i]; g_t[w++] = '"'; g_t[w] = 0;
        vh_fail_point(f); compare(g_t, 40); vh_fail_point(-1);
    }
    REACH("done");
}
