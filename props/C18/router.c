// A templated resource is read only after its parameters were validated and
// access granted for the template that matched.
//@file funcs=mcp_server_handle_template_resource,template_handler_wrapper,mcp_server_find_template_route,template_route_match_callback
//@file assume="matching, extraction, JSON release and the decision by contract (arbitrary outcomes)"
//@obl h_route kind=bounded unwind=5 note="up to three routes visited; every outcome of each step"
//@obl h_front kind=proof unwind=4
#include "vh.h"
char *mcp_strdup(const char *s) { return s ? (vh_strdup)(s) : NULL; }
#include "src/server/mcp_server_template_router.c"
#undef mcp_log_info
#include "src/server/mcp_server_template_security.c"
static mcp_server_t g_srv; static char g_uri[2] = "u", g_tab[1], g_sec[1], g_mem[3][1];
static template_route_t g_r[3]; static char g_t[3][2] = { "a", "b", "c" }; static int g_n, g_d[3];
static bool g_match[3], g_extract[3], g_valid, g_access; static int g_valid_n, g_access_n, g_ran, g_held, g_first;
#define PAR(i) ((mcp_json_t *)g_mem[i])
static int idx(const char *t) { return t == g_t[0] ? 0 : t == g_t[1] ? 1 : t == g_t[2] ? 2 : -1; }
int mcp_template_matches_optimized(const char *u, const char *t) { int i = idx(t); CHECK(u == g_uri && i >= 0, "the request against a route"); return g_match[i]; }
mcp_json_t *mcp_template_extract_params_optimized(const char *u, const char *t) { int i = idx(t); CHECK(u == g_uri && i >= 0, "the parameters of the request"); if (!g_extract[i]) return NULL; g_held |= 1 << i; return PAR(i); }
void mcp_json_destroy(mcp_json_t *j) { if (!j) return; int b = j == PAR(0) ? 1 : j == PAR(1) ? 2 : 4; CHECK(g_held & b, "parameters released once"); g_held &= ~b; }
void mcp_hashtable_foreach(mcp_hashtable_t *t, void (*cb)(const void *, void *, void *), void *u) { CHECK(t == (void *)g_tab, "the routes of this server"); for (int i = 0; i < 3; i++) if (i < g_n) cb(g_t[i], &g_r[i], u); }
int mcp_hashtable_put(mcp_hashtable_t *t, const void *k, void *v) { return -1; }
mcp_hashtable_t *mcp_hashtable_create(size_t c, float l, mcp_hash_func_t h, mcp_key_compare_func_t k, mcp_key_dup_func_t d, mcp_key_free_func_t f, mcp_value_free_func_t v) { return NULL; }
unsigned long mcp_hashtable_string_hash(const void *k) { return 0; }
bool mcp_hashtable_string_compare(const void *a, const void *b) { return false; }
void *mcp_hashtable_string_dup(const void *k) { return NULL; }
void mcp_hashtable_string_free(void *k) { (void)k; }
bool mcp_template_security_validate_params(mcp_template_security_t *s, const char *t, const mcp_json_t *p)
{
    CHECK(s == (void *)g_sec && t == g_t[g_first] && p == (g_extract[g_first] ? PAR(g_first) : NULL), "validated for the matched template");
    g_valid_n++; return g_valid;
}
bool mcp_template_security_check_access(mcp_template_security_t *s, const char *t, const char *role, const mcp_json_t *p)
{
    CHECK(s == (void *)g_sec && t == g_t[g_first] && p == (g_extract[g_first] ? PAR(g_first) : NULL), "decided for the matched template");
    g_access_n++; return g_access;
}
static mcp_error_code_t handler(mcp_server_t *s, const char *uri, void *u, mcp_content_item_t ***items, size_t *n, char **msg)
{
    CHECK(s == &g_srv && uri == g_uri && u == &g_d[g_first], "the handler of the matched route");
    if (g_srv.template_security) CHECK(g_valid_n && g_valid && g_access_n && g_access, "runs only when validated and granted");
    g_ran++; return in_bool("fine") ? MCP_ERROR_NONE : MCP_ERROR_INTERNAL_ERROR;
}
void h_route(void)
{
    g_n = in_u8("n") % 4;
    g_first = -1;
    for (int i = 0; i < 3; i++) {
        g_match[i] = in_bool("match"); g_extract[i] = in_bool("extract");
        g_r[i].template_uri = g_t[i]; g_r[i].handler = handler; g_r[i].user_data = &g_d[i];
        if (g_first < 0 && i < g_n && g_match[i]) g_first = i;
    }
    g_valid = in_bool("valid"); g_access = in_bool("access");
    g_srv.template_routes_table = in_bool("table") ? (void *)g_tab : NULL;
    g_srv.template_security = in_bool("sec") ? (void *)g_sec : NULL;
    vh_alloc_may_fail = 1;
    mcp_content_item_t **items; size_t n; char *msg = NULL;
    mcp_error_code_t r = mcp_server_handle_template_resource(&g_srv, g_uri, &items, &n, in_bool("msg") ? &msg : NULL);
    free(msg);
    CHECK(g_held == 0, "the parameters are released");
    bool found = g_srv.template_routes_table && g_first >= 0, sec = g_srv.template_security != NULL;
    CHECK(g_ran == (found && (!sec || (g_valid && g_access))), "the handler ran exactly if allowed, once");
    if (!g_ran) CHECK(r == (!found ? MCP_ERROR_RESOURCE_NOT_FOUND : !g_valid ? MCP_ERROR_INVALID_PARAMS : MCP_ERROR_UNAUTHORIZED) || (found && !g_valid && r == MCP_ERROR_UNAUTHORIZED) || (found && !g_access && r == MCP_ERROR_INVALID_PARAMS), "and otherwise the request is refused");
    REACH("routed");
}
/* the server's own entry points hand rules on unchanged */
static int g_put, g_rc; static const char *g_rl[1] = { "r" };
mcp_template_security_t *mcp_template_security_create(void) { return in_bool("created") ? (void *)g_sec : NULL; }
int mcp_template_security_add_acl(mcp_template_security_t *s, const char *t, const char **r, size_t n) { CHECK(s == (void *)g_sec && t == g_t[0] && r == g_rl && n == 1, "the rule as given"); g_put |= 1; return g_rc; }
static bool v(const char *t, const mcp_json_t *p, void *d) { return true; }
int mcp_template_security_set_validator(mcp_template_security_t *s, const char *t, mcp_template_validator_t f, void *d) { CHECK(s == (void *)g_sec && t == g_t[0] && f == v && d == g_d, "the validator as given"); g_put |= 2; return g_rc; }
int mcp_template_security_set_default_validator(mcp_template_security_t *s, mcp_template_validator_t f, void *d) { CHECK(s == (void *)g_sec && f == v && d == g_d, "the validator as given"); g_put |= 4; return g_rc; }
void h_front(void)
{
    g_srv.template_security = in_bool("sec") ? (void *)g_sec : NULL;
    bool had = g_srv.template_security != NULL;
    g_rc = in_bool("rc") ? 0 : -1;
    int k = in_u8("k") % 3;
    int r = k == 0 ? mcp_server_add_template_acl(&g_srv, g_t[0], g_rl, 1) : k == 1 ? mcp_server_set_template_validator(&g_srv, g_t[0], v, g_d) : mcp_server_set_default_template_validator(&g_srv, v, g_d);
    CHECK((r == 0) == (g_put == (1 << k) && g_rc == 0), "success exactly if the rule was taken");
    CHECK(!had || g_srv.template_security == (void *)g_sec, "existing rules stay");
    if (r == 0) CHECK(g_srv.template_security == (void *)g_sec, "and apply to later requests");
    REACH("handed on");
}
