// A tool or resource handler runs only after the access decision said yes for
// exactly the name it is given; otherwise the answer is a permission error.
//@file funcs=handle_call_tool_request,handle_read_resource_request,handle_template_resource,handle_resource_handler,extract_string_param
//@file assume="JSON, cache, pools and the access decision by contract (arbitrary outcomes)"
//@obl h_tool kind=proof unwind=4
//@obl h_resource kind=proof unwind=4
#include "vh.h"
#include "internal/server_internal.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_json_message.h"
#include "src/json/internal/json_internal.h"
static mcp_server_t g_srv; static mcp_auth_context_t g_ctx;
static mcp_json_t g_params, g_name, g_args, g_node;
static char g_text[2] = "n", g_ans[2] = "r", g_errtext[2] = "e", g_res[2] = "s";
static bool g_granted, g_decided; static int g_ran, g_err, g_errcode, g_ok, g_cached;
static mcp_content_item_t *g_items[1]; static mcp_content_item_t g_item;
static bool g_tool;
static void given(const char *n) { CHECK(g_decided && g_granted, "the handler runs only when the identity was granted access"); CHECK(n == g_text || vh_streq(n, g_text), "the handler gets the name that was decided on"); g_ran++; }
static bool decide(const mcp_auth_context_t *c, const char *n, bool tool)
{
    CHECK(c == &g_ctx, "the identity of this request");
    CHECK(n == g_text, "the requested name"); CHECK(tool == g_tool, "decided by the list of its kind");
    g_decided = true; return g_granted;
}
bool mcp_auth_check_tool_access(const mcp_auth_context_t *c, const char *n) { return decide(c, n, true); }
bool mcp_auth_check_resource_access(const mcp_auth_context_t *c, const char *n) { return decide(c, n, false); }
mcp_json_t *mcp_json_parse(const char *s) { return in_bool("parse") ? &g_params : NULL; }
void mcp_json_destroy(mcp_json_t *j) { (void)j; }
mcp_json_t *mcp_json_object_get_property(const mcp_json_t *j, const char *n)
{
    if (j != &g_params) return NULL;
    if (vh_streq(n, g_tool ? "name" : "uri")) return in_bool("hasname") ? &g_name : NULL;
    return in_bool("hasarg") ? &g_args : NULL;
}
mcp_json_type_t mcp_json_get_type(const mcp_json_t *j) { return j ? j->type : MCP_JSON_NULL; }
int mcp_json_get_string(const mcp_json_t *j, const char **v) { if (!j || j->type != MCP_JSON_STRING) return -1; *v = j->string_value; return 0; }
#define NODE(f, args) mcp_json_t *f args { return in_bool(#f) ? &g_node : NULL; }
NODE(mcp_json_array_create, (void)) NODE(mcp_json_array_create_with_capacity, (size_t n)) NODE(mcp_json_object_create, (void)) NODE(mcp_json_object_create_with_capacity, (size_t n))
NODE(mcp_json_string_create, (const char *s)) NODE(mcp_json_boolean_create, (bool b)) NODE(mcp_json_number_create, (double d))
int mcp_json_object_set_property(mcp_json_t *j, const char *n, mcp_json_t *v) { return j && v && in_bool("set") ? 0 : -1; }
int mcp_json_array_add_item(mcp_json_t *j, mcp_json_t *v) { return j && v && in_bool("add") ? 0 : -1; }
int mcp_json_increment_ref_count(mcp_json_t *j) { return j ? 0 : -1; }
char *mcp_json_stringify(const mcp_json_t *j) { return in_bool("stringify") ? g_res : NULL; }
char *create_error_response(uint64_t id, mcp_error_code_t code, const char *m) { CHECK(id == 7, "the id of the request"); g_err++; g_errcode = code; return g_errtext; }
char *create_success_response(uint64_t id, char *r) { CHECK(id == 7 && r == g_res, "the answer to the request"); g_ok++; return g_ans; }
int mcp_cache_get(mcp_resource_cache_t *c, const char *u, mcp_object_pool_t *p, mcp_content_item_t ***items, size_t *n)
{
    CHECK(g_decided && g_granted, "cached content is read only when access was granted"); CHECK(u == g_text, "the requested resource");
    if (!in_bool("hit")) return -1;
    g_cached++; *items = g_items; *n = 1; return 0;
}
int mcp_cache_put(mcp_resource_cache_t *c, const char *u, mcp_object_pool_t *p, mcp_content_item_t **items, size_t n, int ttl) { CHECK(u == g_text, "cached under its own name"); return in_bool("put") ? 0 : -1; }
void mcp_content_item_free(mcp_content_item_t *i) { (void)i; }
bool mcp_object_pool_release(mcp_object_pool_t *p, void *o) { return true; }
void mcp_safe_free(void *p, size_t n) { (void)p; (void)n; }
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_INFO; }
int mcp_hashtable_get(mcp_hashtable_t *t, const void *k, void **v) { return in_bool("known") ? 0 : -1; }
static char *g_msg(void) { if (!in_bool("msg")) return NULL; return malloc(2); }
static mcp_error_code_t tool_handler(mcp_server_t *s, const char *name, const mcp_json_t *a, void *u, mcp_content_item_t ***items, size_t *n, bool *is_err, char **msg)
{
    given(name);
    if (in_bool("content")) { *items = g_items; *n = 1; }
    *is_err = in_bool("iserr"); char *m = g_msg(); if (m) { m[0] = 'm'; m[1] = 0; } *msg = m;
    return in_bool("fine") ? MCP_ERROR_NONE : MCP_ERROR_TOOL_NOT_FOUND;
}
static mcp_error_code_t resource_handler(mcp_server_t *s, const char *uri, void *u, mcp_content_item_t ***items, size_t *n, char **msg)
{
    given(uri);
    if (in_bool("content")) { *items = g_items; *n = 1; }
    *msg = g_msg();
    return in_bool("fine") ? MCP_ERROR_NONE : MCP_ERROR_RESOURCE_NOT_FOUND;
}
mcp_error_code_t mcp_server_handle_template_resource(mcp_server_t *s, const char *uri, mcp_content_item_t ***items, size_t *n, char **msg)
{
    given(uri);
    int r = in_i32("tmpl"); ASSUME(r == MCP_ERROR_NONE || r == MCP_ERROR_RESOURCE_NOT_FOUND || r == MCP_ERROR_INTERNAL_ERROR);
    if (r == MCP_ERROR_NONE) { *items = g_items; *n = 1; }
    else *msg = g_msg();
    return r;
}
char *mcp_strdup(const char *s) { char *p = malloc(2); if (p) { p[0] = s[0]; p[1] = 0; } return p; }
#include "src/server/mcp_server_handlers.c"
static void setup(bool tool)
{
    g_tool = tool;
    g_params.type = MCP_JSON_OBJECT;
    g_name.type = in_i32("nametype"); ASSUME(g_name.type >= MCP_JSON_NULL && g_name.type <= MCP_JSON_OBJECT);
    g_name.string_value = in_bool("nametext") ? g_text : NULL;
    g_item.type = MCP_CONTENT_TYPE_TEXT; g_item.data = in_bool("data") ? g_text : NULL; g_item.mime_type = in_bool("mime") ? g_text : NULL;
    g_items[0] = &g_item;
    g_srv.capabilities.tools_supported = in_bool("cap"); g_srv.capabilities.resources_supported = in_bool("cap");
    g_srv.tool_handler = in_bool("th") ? tool_handler : NULL; g_srv.resource_handler = in_bool("rh") ? resource_handler : NULL;
    g_srv.template_routes_table = in_bool("routes") ? (mcp_hashtable_t *)&g_node : NULL;
    g_srv.resources_table = in_bool("list") ? (mcp_hashtable_t *)&g_node : NULL;
    g_srv.resource_cache = in_bool("cache") ? (mcp_resource_cache_t *)&g_node : NULL;
    g_srv.content_item_pool = in_bool("ipool") ? (mcp_object_pool_t *)&g_node : NULL;
    g_granted = in_bool("granted");
}
static void outcome(char *r, int e)
{
    if (g_decided && !g_granted) {
        CHECK(g_ran == 0 && g_cached == 0, "nothing runs without a grant");
        CHECK(r == g_errtext && g_err == 1 && g_errcode == MCP_ERROR_FORBIDDEN && e == MCP_ERROR_FORBIDDEN, "the answer is a permission error");
    }
    if (!g_decided) CHECK(g_ran == 0 && g_cached == 0 && g_ok == 0, "no answer without a decision");
    CHECK(g_err + g_ok <= 1, "one answer");
    if (g_ok) CHECK(g_granted && g_decided && (g_ran || g_cached), "a success comes from the handler or the cache");
    CHECK(vh_live == 0, "the handler's message is released");
    REACH("outcome");
}
void h_tool(void)
{
    setup(true);
    mcp_request_t rq; rq.id = 7; rq.method = "call_tool"; rq.params = in_bool("params") ? "{}" : NULL;
    int e = 99;
    char *r = handle_call_tool_request(&g_srv, NULL, &rq, in_bool("ctx") ? &g_ctx : NULL, &e);
    outcome(r, e);
    if (g_ran) CHECK(g_srv.capabilities.tools_supported && g_ran == 1, "called once");
}
void h_resource(void)
{
    setup(false);
    mcp_request_t rq; rq.id = 7; rq.method = "read_resource"; rq.params = in_bool("params") ? "{}" : NULL;
    int e = 99;
    char *r = handle_read_resource_request(&g_srv, NULL, &rq, in_bool("ctx") ? &g_ctx : NULL, &e);
    outcome(r, e);
    if (g_ran) CHECK(g_srv.capabilities.resources_supported, "resources are offered");
}
