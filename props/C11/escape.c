// The escaped form of a string, byte by byte, and its size.
//@file funcs=mcp_json_escape_string,write_safe
//@obl h_escape kind=bounded unwind=28 note="every string of up to two bytes; every output size up to two more than needed, and none"
#include "vh.h"
#include <string.h>
static void *loop_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#ifndef REPLAY
#define memcpy loop_memcpy
#endif
#include "src/json/mcp_json_utils.c"
#undef memcpy
#define N 2
static char g_in[N + 1]; static unsigned char g_dec[N + 1];
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* reads one character of a JSON string literal: its length there, -1 if invalid */
static int decode1(const char *t, unsigned char *out)
{
    unsigned char c = (unsigned char)t[0];
    if (c < 32 || c == '"') return -1;
    if (c != '\\') { *out = c; return 1; }
    switch (t[1]) {
    case '"': *out = '"'; return 2;
    case '\\': *out = '\\'; return 2;
    case '/': *out = '/'; return 2;
    case 'b': *out = 8; return 2;
    case 'f': *out = 12; return 2;
    case 'n': *out = 10; return 2;
    case 'r': *out = 13; return 2;
    case 't': *out = 9; return 2;
    case 'u': { if (t[2] != '0' || t[3] != '0') return -1; int a = hexval((unsigned char)t[4]), b = hexval((unsigned char)t[5]); if (a < 0 || b < 0 || a > 7) return -1; *out = (unsigned char)(a * 16 + b); return 6; }
    }
    return -1;
}
static void one(int n)
{
    g_in[n] = 0;
    for (int i = 0; i < n; i++) { g_in[i] = (char)in_u8("byte"); ASSUME(g_in[i]); }
    int need = mcp_json_escape_string(g_in, NULL, 0);
    CHECK(need >= n + 1 && need <= 6 * n + 1, "the size it needs");
    char out[6 * N + 3]; for (int i = 0; i < 6 * N + 3; i++) out[i] = 'Z';
    int r = mcp_json_escape_string(g_in, out, (size_t)need);
    CHECK(r == need && out[need] == 'Z' && out[need - 1] == 0, "fits exactly");
    int p = 0;
    for (int i = 0; i < n; i++) { unsigned char c = 0; int k = decode1(out + p, &c); CHECK(k > 0 && c == (unsigned char)g_in[i], "decodes to the same bytes"); if (k < 0) return; p += k; }
    CHECK(p == need - 1, "and to no more");
    size_t cap = in_u8("cap"); ASSUME(cap <= (size_t)need + 1);
    char small[6 * N + 3]; for (int i = 0; i < 6 * N + 3; i++) small[i] = 'Z';
    r = mcp_json_escape_string(g_in, small, cap);
    CHECK(r == need, "the size it needs, whatever there is");
    for (size_t i = 0; i < 6 * N + 3; i++) if (i >= cap) CHECK(small[i] == 'Z', "nothing written behind the end");
    if (cap > 0) CHECK(small[cap < (size_t)need ? cap - 1 : (size_t)need - 1] == 0, "terminated");
}
void h_escape(void) { one(0); one(1); one(2); REACH("done"); }
