// The decision for role lists of every length (loop invariant in roles.json).
//@file funcs=mcp_template_security_check_access loops=roles.json
//@file assume="string comparison by contract: a role equals the caller's, is the wildcard, or neither"
//@obl h_roles kind=proof unwind=3 loops=1 standin=h_check note="every role list; two rules"
#include "vh.h"
extern size_t g_w, g_n; extern int g_wmatch, g_hit;
int vh_cmp(const char *a, const char *b);
#define strcmp vh_cmp
#include "src/server/mcp_template_security.c"
#undef strcmp
char *mcp_strdup(const char *s) { return NULL; }
size_t g_w, g_n; int g_wmatch, g_hit; bool g_other_first, g_says;
char g_role[2] = "r", g_uri[2] = "t", g_t0[2] = "t", g_t1[2] = "o", g_same[2] = "r", g_star[2] = "*";
mcp_template_security_t g_s; template_acl_entry_t g_e0, g_e1, *g_ep[2]; int g_asked;
int vh_cmp(const char *a, const char *b)
{
    if (b == g_uri) return a == g_t0 ? 0 : 1;
    if (a == g_uri) return b == g_t0 ? 0 : 1;
    if (b == g_role) { if (a == g_same) { g_hit = 1; return 0; } return 1; }
    if (a == g_role) { if (b == g_same) { g_hit = 1; return 0; } return 1; }
    if (b[0] == '*' && b[1] == 0) { if (a == g_star) { g_hit = 1; return 0; } return 1; }
    if (b == g_star) { g_hit = 1; return 0; }
    return 1;
}
bool validator(const char *t, const mcp_json_t *p, void *d) { CHECK(t == g_uri && p == NULL && d == &g_says, "the validator's arguments"); g_asked = 1; return g_says; }
void h_roles(void)
{
    vh_reset();
    size_t n = in_size("n"); ASSUME(n >= 1 && n <= ((size_t)1 << 40));
    char **list = (char **)malloc(n * sizeof(char *)); ASSUME(list);
    g_n = n; g_hit = 0; g_asked = 0;
    g_w = in_size("w"); ASSUME(g_w < n);
    g_wmatch = list[g_w] == g_same || list[g_w] == g_star;
    g_e0.template_uri = g_t0; g_e0.allowed_roles = list; g_e0.allowed_roles_count = n;
    g_e1.template_uri = g_t1; g_e1.allowed_roles = NULL; g_e1.allowed_roles_count = 0; g_e1.validator = NULL;
    bool own = in_bool("own"), def = in_bool("def"); g_says = in_bool("says");
    g_e0.validator = own ? validator : NULL; g_e0.validator_data = own ? &g_says : NULL;
    g_s.default_validator = def ? validator : NULL; g_s.default_validator_data = def ? &g_says : NULL;
    g_other_first = in_bool("other_first");
    g_ep[0] = g_other_first ? &g_e1 : &g_e0; g_ep[1] = g_other_first ? &g_e0 : &g_e1;
    g_s.entries = g_ep; g_s.entries_count = 2; g_s.entries_capacity = 2;
    bool ok = mcp_template_security_check_access(&g_s, g_uri, g_role, NULL);
    bool valid = own || def ? g_says : true;
    if (ok) CHECK(g_hit, "access only through a listed role");
    if (ok) CHECK(valid && g_asked == (own || def), "and with the consent of the validator");
    if (g_wmatch && valid) CHECK(ok, "a listed role is let in");
    REACH("decided");
}
