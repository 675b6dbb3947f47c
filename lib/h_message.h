/* JSON documents as already parsed trees: an element has optional members
 * id, method, params, result, error (with code and message) of any type. */
#include "vh.h"
#include "src/json/internal/json_internal.h"
#ifndef NEL
#define NEL 3
#endif
enum { F_ID, F_METHOD, F_PARAMS, F_RESULT, F_ERROR, F_CODE, F_MESSAGE, F_N };
static const char *const FIELD[] = {"id", "method", "params", "result", "error", "code", "message"};
static mcp_json_t g_root, g_el[NEL], g_f[NEL][F_N];
static bool g_has[NEL][F_N];
static char g_text[NEL][F_N][2];
static mcp_json_t *g_items[NEL];
static int g_destroyed, g_parsed;
static bool g_parse_ok = true; static mcp_json_t *g_doc;
mcp_json_t *mcp_json_parse(const char *s) { if (!s || !g_parse_ok) return NULL; g_parsed++; return g_doc; }
void mcp_json_destroy(mcp_json_t *j) { if (j) { CHECK(j == g_doc, "the parsed document is released as a whole"); g_destroyed++; CHECK(g_destroyed <= g_parsed, "released once"); } }
mcp_json_t *mcp_json_object_get_property(const mcp_json_t *j, const char *n)
{
    if (!j || !n || j->type != MCP_JSON_OBJECT) return NULL;
    for (int i = 0; i < NEL; i++) {
        if (j == &g_el[i]) for (int k = 0; k <= F_ERROR; k++) if (vh_streq(n, FIELD[k])) return g_has[i][k] ? &g_f[i][k] : NULL;
        if (j == &g_f[i][F_ERROR]) for (int k = F_CODE; k < F_N; k++) if (vh_streq(n, FIELD[k])) return g_has[i][k] ? &g_f[i][k] : NULL;
    }
    return NULL;
}
bool mcp_json_object_has_property(const mcp_json_t *j, const char *n) { return mcp_json_object_get_property(j, n) != NULL; }
mcp_json_type_t mcp_json_get_type(const mcp_json_t *j) { return j ? j->type : MCP_JSON_NULL; }
int mcp_json_get_number(const mcp_json_t *j, double *v) { if (!j || j->type != MCP_JSON_NUMBER) return -1; *v = j->number_value; return 0; }
int mcp_json_get_string(const mcp_json_t *j, const char **v) { if (!j || j->type != MCP_JSON_STRING) return -1; *v = j->string_value; return 0; }
int mcp_json_array_get_size(const mcp_json_t *j) { return j && j->type == MCP_JSON_ARRAY ? (int)j->array.count : -1; }
mcp_json_t *mcp_json_array_get_item(const mcp_json_t *j, int i) { if (!j || j->type != MCP_JSON_ARRAY || i < 0 || (size_t)i >= j->array.count) return NULL; return g_items[i]; }
/* serialised form of member k of element i: "<i><k>" */
char *mcp_json_stringify(const mcp_json_t *j)
{
    char *p = malloc(3);
    if (!p) return NULL;
    p[0] = '?'; p[1] = '?'; p[2] = 0;
    for (int i = 0; i < NEL; i++) for (int k = 0; k < F_N; k++) if (j == &g_f[i][k]) { p[0] = (char)('0' + i); p[1] = (char)('0' + k); }
    return p;
}
static void field(int i, int k, bool has, int type)
{
    g_has[i][k] = has;
    g_f[i][k].type = type;
    g_text[i][k][0] = (char)('a' + k); g_text[i][k][1] = 0;
    if (type == MCP_JSON_STRING) g_f[i][k].string_value = g_text[i][k];
}
static bool valid_id(double v) { return v >= 0 && v <= 9007199254740991.0 && v == (double)(uint64_t)v; }
static bool valid_code(double v) { return v >= -2147483648.0 && v <= 2147483647.0 && v == (double)(int)v; }
/* JSON-RPC 2.0: what kind of message element i is */
static int kind(int i)
{
    if (g_el[i].type != MCP_JSON_OBJECT) return MCP_MESSAGE_TYPE_INVALID;
    const mcp_json_t *f = g_f[i]; const bool *h = g_has[i];
    bool idok = h[F_ID] && f[F_ID].type == MCP_JSON_NUMBER && valid_id(f[F_ID].number_value);
    if (h[F_METHOD] && f[F_METHOD].type == MCP_JSON_STRING) {
        if (h[F_PARAMS] && f[F_PARAMS].type != MCP_JSON_OBJECT && f[F_PARAMS].type != MCP_JSON_ARRAY) return MCP_MESSAGE_TYPE_INVALID;
        if (!h[F_ID]) return MCP_MESSAGE_TYPE_NOTIFICATION;
        return idok ? MCP_MESSAGE_TYPE_REQUEST : MCP_MESSAGE_TYPE_INVALID;
    }
    if (!idok) return MCP_MESSAGE_TYPE_INVALID;
    if (h[F_ERROR] && f[F_ERROR].type == MCP_JSON_OBJECT) {
        if (h[F_RESULT]) return MCP_MESSAGE_TYPE_INVALID;
        if (!h[F_CODE] || f[F_CODE].type != MCP_JSON_NUMBER || !valid_code(f[F_CODE].number_value)) return MCP_MESSAGE_TYPE_INVALID;
        return h[F_MESSAGE] && f[F_MESSAGE].type == MCP_JSON_STRING ? MCP_MESSAGE_TYPE_RESPONSE : MCP_MESSAGE_TYPE_INVALID;
    }
    return h[F_RESULT] ? MCP_MESSAGE_TYPE_RESPONSE : MCP_MESSAGE_TYPE_INVALID;
}
static bool is_text(const char *s, int i, int k) { return s && s[0] == (char)('0' + i) && s[1] == (char)('0' + k) && s[2] == 0; }
static bool is_copy(const char *s, int i, int k) { return s && s != g_text[i][k] && s[0] == (char)('a' + k) && s[1] == 0; }
static void preserved(const mcp_message_t *m, int i)
{
    if (m->type == MCP_MESSAGE_TYPE_REQUEST) {
        CHECK((double)m->request.id == g_f[i][F_ID].number_value, "the id is preserved");
        CHECK(is_copy(m->request.method, i, F_METHOD), "the method is preserved");
        if (g_has[i][F_PARAMS]) CHECK(is_text((const char *)m->request.params, i, F_PARAMS), "the parameters are preserved");
        else CHECK(m->request.params == NULL, "no parameters");
    } else if (m->type == MCP_MESSAGE_TYPE_NOTIFICATION) {
        CHECK(is_copy(m->notification.method, i, F_METHOD), "the method is preserved");
        if (g_has[i][F_PARAMS]) CHECK(is_text((const char *)m->notification.params, i, F_PARAMS), "the parameters are preserved");
        else CHECK(m->notification.params == NULL, "no parameters");
    } else if (m->type == MCP_MESSAGE_TYPE_RESPONSE) {
        CHECK((double)m->response.id == g_f[i][F_ID].number_value, "the id is preserved");
        if (g_has[i][F_ERROR] && g_f[i][F_ERROR].type == MCP_JSON_OBJECT) {
            CHECK((double)(int)m->response.error_code == g_f[i][F_CODE].number_value, "the error code is preserved");
            CHECK(is_copy(m->response.error_message, i, F_MESSAGE), "the error message is preserved");
            CHECK(m->response.result == NULL, "no result");
        } else {
            CHECK(m->response.error_code == MCP_ERROR_NONE && m->response.error_message == NULL, "no error");
            CHECK(is_text((const char *)m->response.result, i, F_RESULT), "the result is preserved");
        }
    }
}
