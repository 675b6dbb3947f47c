// The access decision for lists of every length (loop invariant in list.json).
//@file funcs=mcp_auth_check_tool_access,mcp_auth_check_resource_access,check_access,is_auth_context_expired loops=list.json
//@file assume="the pattern match by contract: arbitrary but fixed verdicts (proved in match.c)"
//@obl h_tool kind=proof unwind=2 loops=1 standin=h_small note="every list, expiry and clock value"
//@obl h_resource kind=proof unwind=2 loops=1 standin=h_small note="every list, expiry and clock value"
#include "vh.h"
#include "mcp_auth.h"
#include <openssl/crypto.h>
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return 1; }
extern size_t g_w; extern int g_wmatch, g_hit; extern char *g_match;
#include "mcp_string_utils.h"
#include "src/server/mcp_auth.c"
size_t g_w; int g_wmatch, g_hit; char *g_match;
mcp_auth_context_t g_c; char g_name[2];
bool mcp_wildcard_match(const char *p, const char *t)
{
    CHECK(t == g_name, "the requested name");
    if (p && p == g_match) { g_hit = 1; return true; }
    return false;
}
char *mcp_strdup(const char *s) { return NULL; }
static void decide(bool tool)
{
    vh_reset();
    vh_clock_mode = 1; vh_now = in_i64("now");
    size_t n = in_size("n");
    ASSUME(n >= 1 && n <= ((size_t)1 << 40));
    char **list = (char **)malloc(n * sizeof(char *));
    ASSUME(list);
    g_match = (char *)1; g_hit = 0;
    g_w = in_size("w"); ASSUME(g_w < n);
    g_wmatch = list[g_w] == g_match;
    g_c.expiry = in_i64("expiry");
    g_c.identifier = NULL;
    bool empty = in_bool("empty");
    size_t m = empty ? 0 : n;
    g_c.allowed_tools = g_c.allowed_resources = NULL;
    g_c.allowed_tools_count = g_c.allowed_resources_count = 0;
    if (tool) { g_c.allowed_tools = list; g_c.allowed_tools_count = m; } else { g_c.allowed_resources = list; g_c.allowed_resources_count = m; }
    bool r = tool ? mcp_auth_check_tool_access(&g_c, g_name) : mcp_auth_check_resource_access(&g_c, g_name);
    bool expired = g_c.expiry != 0 && vh_now > g_c.expiry;
    if (expired) CHECK(!r, "an expired identity has no access");
    if (r) CHECK(g_hit && !empty, "access only through a matching pattern");
    if (!expired && !empty && g_wmatch) CHECK(r, "a matching pattern grants access");
    REACH("decided");
}
void h_tool(void) { decide(true); }
void h_resource(void) { decide(false); }
