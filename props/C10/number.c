// Numbers: their extent and their value.
//@file funcs=parse_number
//@file assume="strtod by its contract: the longest decimal or hexadecimal number, an arbitrary value"
//@obl h_number kind=bounded unwind=9 note="every text of up to five characters"
#include "vh.h"
#ifndef REPLAY
#define union struct
#endif
#include "src/json/internal/json_internal.h"
#undef union
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
static double spec_strtod(const char *s, char **end);
#undef strtod
#define strtod(s, e) spec_strtod(s, e)
#endif
#include "src/json/mcp_json_parser.c"
#undef strtod
static mcp_json_t g_node; static double g_given; static int g_made; double g_result; const char *g_from;
mcp_json_t *mcp_json_number_create(double v) { g_given = v; g_made++; return &g_node; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
/* extent of the decimal number of C at s; json: the grammar of JSON (leading zeros allowed), -1 if none */
static int extent(const char *s, bool json)
{
    int i = 0; if (s[i] == '-' || (!json && s[i] == '+')) i++;
    int d = 0; while (dig(s[i])) { i++; d++; }
    if (json && !d) return -1;
    if (s[i] == '.' && (json || d || dig(s[i + 1]))) { i++; int f = 0; while (dig(s[i])) { i++; f++; } if (json && !f) return -1; d += f; }
    if (!d) return 0;
    if (s[i] == 'e' || s[i] == 'E') { int k = i + 1; if (s[k] == '+' || s[k] == '-') k++; if (dig(s[k])) { while (dig(s[k])) k++; i = k; } else if (json) return -1; }
    return i;
}
static bool hx(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
#ifndef REPLAY
static double spec_strtod(const char *s, char **end)
{
    int n = extent(s, false), m = s[0] == '-' ? 1 : 0;
    if (s[m] == '0' && (s[m + 1] == 'x' || s[m + 1] == 'X') && hx(s[m + 2])) { n = m + 2; while (hx(s[n])) n++; }
    *end = (char *)s + n; g_from = s; return g_result;
}
#endif
void h_number(void)
{
    static char t[6]; for (int i = 0; i < 5; i++) t[i] = (char)in_u8("char"); t[5] = 0;
    g_result = in_double("value"); ASSUME(g_result == g_result);
#ifdef REPLAY
    g_result = strtod(t, NULL);
#endif
    const char *p = t; int want = extent(t, true); g_made = 0; g_from = t;
    mcp_json_t *r = parse_number(&p);
    bool hex = t[0] == '0' && (t[1] | 32) == 'x'; bool nhex = t[0] == '-' && t[1] == '0' && (t[2] | 32) == 'x';
    if (want < 0) CHECK(r == NULL && !g_made, "rejected");
    else if (!hex && !nhex) { CHECK(r == &g_node && g_made == 1, "accepted"); CHECK(p == t + want && g_from == t && g_given == g_result, "all of it, its value"); }
    REACH("done");
}
