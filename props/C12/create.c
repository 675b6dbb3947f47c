// Messages built as trees: version, id, code, message, result for every id and code.
//@file funcs=mcp_json_create_request,mcp_json_create_response,mcp_json_create_error_response,mcp_json_format_request,mcp_json_format_response,mcp_json_format_error_response,init_json_rpc_message,add_json_property
//@file link=src/common/mcp_string_utils.c,src/common/mcp_types.c
//@file assume="JSON tree construction and serialisation by contract; the error code enumeration is represented as int"
//@obl h_create_request kind=proof unwind=12
//@obl h_create_response kind=proof unwind=12
//@obl h_create_error kind=proof unwind=12
//@obl h_format_request kind=proof unwind=12
//@obl h_format_response kind=proof unwind=12
//@obl h_format_error kind=proof unwind=12
#include "vh.h"
#include "src/json/internal/json_internal.h"
/* trees by contract: nodes are cells; an object has at most four members */
#define CELLS 8
typedef struct { int type; double num; const char *str; int n; const char *name[4]; int val[4]; bool owned, parsed, gone; } cell;
static cell g_c[CELLS]; static int g_n;
static int g_fail_at = -1, g_calls; static bool g_badparse;
static bool fails(void) { return g_calls++ == g_fail_at; }
static mcp_json_t *cellp(int i) { return (mcp_json_t *)(void *)&g_c[i]; }
static int idx(const mcp_json_t *j) { for (int i = 0; i < CELLS; i++) if ((const void *)j == (const void *)&g_c[i]) return i; return -1; }
static mcp_json_t *mk(int type, double d, const char *s) { if (fails() || g_n >= CELLS) return NULL; cell *c = &g_c[g_n]; c->type = type; c->num = d; c->str = s; return cellp(g_n++); }
mcp_json_t *mcp_json_object_create(void) { return mk(MCP_JSON_OBJECT, 0, NULL); }
mcp_json_t *mcp_json_null_create(void) { return mk(MCP_JSON_NULL, 0, NULL); }
mcp_json_t *mcp_json_string_create(const char *s) { return mk(MCP_JSON_STRING, 0, s); }
mcp_json_t *mcp_json_number_create(double d) { return mk(MCP_JSON_NUMBER, d, NULL); }
mcp_json_t *mcp_json_parse(const char *s) { if (g_badparse) return NULL; mcp_json_t *j = mk(MCP_JSON_ARRAY, 0, s); if (j) g_c[idx(j)].parsed = true; return j; }
int mcp_json_object_set_property(mcp_json_t *j, const char *n, mcp_json_t *v)
{
    int i = idx(j), k = idx(v);
    if (i < 0 || k < 0 || fails()) return -1;
    CHECK(!g_c[i].gone && !g_c[k].gone && !g_c[k].owned && g_c[i].n < 4, "a live node, owned by one parent");
    if (g_c[i].n >= 4) return -1;
    g_c[i].name[g_c[i].n] = n; g_c[i].val[g_c[i].n++] = k; g_c[k].owned = true;
    return 0;
}
static void drop(int i, int depth)
{
    CHECK(!g_c[i].gone, "released once");
    g_c[i].gone = true;
    if (depth < 2) for (int k = 0; k < g_c[i].n; k++) if (!g_c[g_c[i].val[k]].gone) drop(g_c[i].val[k], depth + 1);
}
void mcp_json_destroy(mcp_json_t *j) { int i = idx(j); if (i >= 0) { drop(i, 0); } }
static int g_str_of = -1;
char *mcp_json_stringify(const mcp_json_t *j) { int i = idx(j); CHECK(i >= 0 && !g_c[i].gone, "a live tree is serialised"); if (fails()) return NULL; g_str_of = i; char *p = malloc(2); if (p) { p[0] = 'T'; p[1] = 0; } return p; }
mcp_json_type_t mcp_json_get_type(const mcp_json_t *j) { return j ? g_c[idx(j)].type : MCP_JSON_NULL; }
static int get(int i, const char *n) { for (int k = 0; k < 4; k++) if (k < g_c[i].n && vh_streq(g_c[i].name[k], n)) return g_c[i].val[k]; return -1; }
#include "mcp_types.h"
/* the verifier has no conversion from an enumeration to double: the code type is its int */
_Static_assert(sizeof(mcp_error_code_t) == sizeof(int) && (mcp_error_code_t)-1 < 0, "the error code type is int");
#define mcp_error_code_t int
#include "src/json/mcp_json_message.c"
#include "src/json/mcp_json_rpc.c"

static uint64_t g_id; static const char M[] = "m", P[] = "p";
static void begin(int k)
{
    g_n = 0; g_calls = 0; g_str_of = -1; g_fail_at = k; vh_live = 0;
    for (int i = 0; i < CELLS; i++) { g_c[i].n = 0; g_c[i].owned = g_c[i].gone = g_c[i].parsed = false; }
}
static int root(char *t, int members)
{
    CHECK(t != NULL && t[0] == 'T' && g_str_of >= 0, "a message is produced");
    int i = g_str_of;
    CHECK(g_c[i].type == MCP_JSON_OBJECT && g_c[i].n == members, "the members of the message");
    int v = get(i, "jsonrpc"), d = get(i, "id");
    CHECK(v >= 0 && g_c[v].type == MCP_JSON_STRING && vh_streq(g_c[v].str, "2.0"), "version 2.0");
    CHECK(d >= 0 && g_c[d].type == MCP_JSON_NUMBER && g_c[d].num == (double)g_id, "the id of the message");
    return i;
}
static void request(bool params, char *t)
{
    int i = root(t, params ? 4 : 3), m = get(i, "method"), p = get(i, "params");
    CHECK(m >= 0 && g_c[m].type == MCP_JSON_STRING && g_c[m].str == M, "the method");
    if (params) CHECK(p >= 0 && g_c[p].parsed && g_c[p].str == P, "the parameters"); else CHECK(p < 0, "no parameters");
}
static void response(bool result, char *t)
{
    int i = root(t, 3), r = get(i, "result");
    CHECK(r >= 0, "a result");
    if (r < 0) return;
    if (result) CHECK(g_c[r].parsed && g_c[r].str == P, "the result"); else CHECK(g_c[r].type == MCP_JSON_NULL, "null");
    CHECK(get(i, "error") < 0, "no error");
}
static void error(int code, bool msg, char *t)
{
    int i = root(t, 3), e = get(i, "error");
    CHECK(get(i, "result") < 0 && e >= 0, "an error and no result");
    if (e < 0) return;
    int c = get(e, "code"), m = get(e, "message");
    CHECK(c >= 0 && g_c[c].type == MCP_JSON_NUMBER && g_c[c].num == (double)code, "the code");
    CHECK(m >= 0 && g_c[m].type == MCP_JSON_STRING && (msg ? g_c[m].str == M : g_c[m].str[0] == 0), "the message");
}
#define EACH(call, when_ok) \
    g_id = in_u64("id"); \
    for (int v = 0; v < 2; v++) for (int k = 0; k < 10; k++) { \
        begin(k == 9 ? -1 : k); \
        char *t = call; \
        if (k == 9) { when_ok; } \
        free(t); \
        CHECK(vh_live == 0, "nothing is lost"); \
    } \
    REACH("built")
void h_create_request(void) { EACH(mcp_json_create_request(M, v ? P : NULL, g_id), request(v, t)); }
void h_format_request(void) { EACH(mcp_json_format_request(g_id, M, v ? P : NULL), request(v, t)); }
void h_create_response(void) { EACH(mcp_json_create_response(g_id, v ? P : NULL), response(v, t)); }
void h_format_response(void) { EACH(mcp_json_format_response(g_id, v ? P : NULL), response(v, t)); }
void h_create_error(void) { int code = in_i32("code"); EACH(mcp_json_create_error_response(g_id, code, v ? M : NULL), error(code, v, t)); }
void h_format_error(void) { int code = in_i32("code"); EACH(mcp_json_format_error_response(g_id, (mcp_error_code_t)code, v ? M : NULL), error(code, v, t)); }
