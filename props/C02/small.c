// The whole access decision on short lists, with the real pattern match.
//@file funcs=mcp_auth_check_tool_access,mcp_auth_check_resource_access,mcp_wildcard_match
//@file link=src/common/mcp_string_utils.c
//@obl h_small kind=bounded unwind=8 note="lists of up to three patterns and names of up to three bytes, every expiry and clock value"
//@obl h_nothing kind=proof unwind=4
#include "vh.h"
#include "mcp_auth.h"
#include <openssl/crypto.h>
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
#include "src/server/mcp_auth.c"
static mcp_auth_context_t g_c; static char g_t[4], g_p0[4], g_p1[4], g_p2[4]; static char *g_l[3], *g_other[1];
static char g_star[2] = "*";
void h_small(void)
{
    vh_clock_mode = 1; vh_now = in_i64("now");
    bool tool = in_bool("tool");
    bool hit = false;
    int n = in_i32("n"); ASSUME(n >= 0 && n <= 3);
    for (int i = 0; i < 3; i++) g_t[i] = (char)in_u8("t");
    for (int k = 0; k < 3; k++) {
        char *p = k == 0 ? g_p0 : k == 1 ? g_p1 : g_p2;
        for (int i = 0; i < 3; i++) p[i] = (char)in_u8("p");
        g_l[k] = in_bool("null") ? NULL : p;
        int lp = 0; while (p[lp]) lp++;
        int d = 0; while (p[d] && p[d] == g_t[d]) d++;
        if (k < n && g_l[k] && (lp > 0 && p[lp - 1] == '*' ? d >= lp - 1 : p[d] == g_t[d])) hit = true;
    }
    g_other[0] = g_star;
    g_c.expiry = in_i64("expiry");
    g_c.allowed_tools = tool ? g_l : g_other; g_c.allowed_tools_count = tool ? (size_t)n : 1;
    g_c.allowed_resources = tool ? g_other : g_l; g_c.allowed_resources_count = tool ? 1 : (size_t)n;
    bool expired = g_c.expiry != 0 && vh_now > g_c.expiry;
    bool r = tool ? mcp_auth_check_tool_access(&g_c, g_t) : mcp_auth_check_resource_access(&g_c, g_t);
    CHECK(r == (hit && !expired), "granted exactly to an unexpired identity with a matching pattern of that kind");
    REACH("decided");
}
void h_nothing(void)
{
    CHECK(!mcp_auth_check_tool_access(NULL, g_t) && !mcp_auth_check_resource_access(NULL, g_t), "no identity, no access");
    CHECK(!mcp_auth_check_tool_access(&g_c, g_t) && !mcp_auth_check_resource_access(&g_c, NULL), "no list, no access");
    REACH("nothing");
}
