// The pattern match.
//@file funcs=mcp_wildcard_match
//@obl h_match_any kind=proof unwind=4 abstract=1 standin=h_match note="pattern and name of every length, by contracts of the string functions"
//@obl h_match kind=bounded unwind=8 note="every pattern and name of up to five bytes"
#include "vh_str.h"
#ifndef REPLAY
/* where the first '*' of the pattern is */
static size_t vh_star = (size_t)-1;
static char *vh_spec_strchr(const char *s, int c)
{
    if (vh_A && s == vh_A && c == '*') return vh_star == (size_t)-1 ? NULL : vh_A + vh_star;
    for (size_t i = 0;; i++) { if (s[i] == (char)c) return (char *)s + i; if (!s[i]) return NULL; }
}
#define strchr(s, c) vh_spec_strchr(s, c)
#else
static size_t vh_star;
#endif
#include "src/common/mcp_string_utils.c"
void h_match_any(void)
{
    /* A: pattern, B: name.  Its first star is at vh_star; it is a trailing
     * wildcard iff the last character is a star. */
    vh_two_strings("plen", "nlen", (size_t)1 << 20);
    bool last = in_bool("last");
    vh_star = in_size("star");
    ASSUME(vh_star == (size_t)-1 || vh_star < vh_LA);
    ASSUME((vh_star == (size_t)-1) ? !last : 1);
    ASSUME(vh_LA > 0 || !last);
    ASSUME(vh_star != vh_LA - 1 || last);
    ASSUME(vh_LA > 1 || (vh_star == 0) == last || vh_star == (size_t)-1);
#ifdef REPLAY
    /* a real pattern with these properties, the same relation to the name */
    if (vh_star != (size_t)-1) { vh_A[vh_star] = '*'; if (vh_star < vh_D) vh_B[vh_star] = '*'; }
    if (last) { vh_A[vh_LA - 1] = '*'; if (vh_LA - 1 < vh_D) vh_B[vh_LA - 1] = '*'; }
#else
    ASSUME(vh_LA == 0 || (vh_A[vh_LA - 1] == '*') == last);
    if (vh_star != (size_t)-1) { ASSUME(vh_A[vh_star] == '*'); ASSUME(vh_star == 0 || vh_A[0] != '*'); }
    else ASSUME(vh_LA == 0 || vh_A[0] != '*');
    ASSUME(vh_LA <= 1 || vh_A[1] != 0);
#endif
    bool want;
    if (vh_LA >= 1 && last) want = vh_D >= vh_LA - 1; /* everything with that prefix */
    else want = vh_equal_AB();
    CHECK(mcp_wildcard_match(vh_A, vh_B) == want, "a pattern matches exactly what it says");
    CHECK(!mcp_wildcard_match(NULL, vh_B) && !mcp_wildcard_match(vh_A, NULL), "nothing matches without a pattern or a name");
    REACH("match");
}
#define M 5
static char g_p[M + 1], g_t[M + 1];
void h_match(void)
{
    for (int i = 0; i < M; i++) { g_p[i] = (char)in_u8("p"); g_t[i] = (char)in_u8("t"); }
    g_p[M] = g_t[M] = 0;
    int lp = 0; while (g_p[lp]) lp++;
    int d = 0; while (g_p[d] && g_p[d] == g_t[d]) d++;
    bool want = lp > 0 && g_p[lp - 1] == '*' ? d >= lp - 1 : g_p[d] == g_t[d];
    CHECK(mcp_wildcard_match(g_p, g_t) == want, "a pattern matches exactly what it says");
    REACH("match");
}
