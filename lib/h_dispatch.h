/* Contracts of what the dispatcher calls.  Message i has id 10+i; handlers
 * answer "a"+i, error responses for it are "A"+i, so the text put together by
 * the dispatcher shows who was answered by what, in which order. */
#include "vh.h"
#include "internal/server_internal.h"
#include "mcp_thread_local.h"
#include "mcp_string_utils.h"
#include "mcp_gateway_routing.h"
#include "mcp_json_rpc.h"
#ifndef NMSG
#define NMSG 3
#endif
static mcp_server_t g_srv;
static int g_type[NMSG], g_cred[NMSG], g_method[NMSG];
static bool g_hnull[NMSG];
static int g_ran[NMSG], g_errors[NMSG], g_other;
static int g_count, g_parse_rc;
static char g_out[4 * NMSG + 8]; static int g_outn;
static long g_json_live;
static const char *const METHODS[] = {"ping", "call_tool", "nosuch", "list_tools"};
enum { CRED_NONE, CRED_ABSENT, CRED_NOTSTRING, CRED_GOOD, CRED_BAD, CRED_KINDS };

static bool key_set(void) { return g_srv.config.api_key && g_srv.config.api_key[0]; }
static bool is_ping(int i) { return g_method[i] == 0; }
static bool authentic(int i) { return !key_set() || g_cred[i] == CRED_GOOD; }

/* Ownership ledger instead of a heap: every string handed to the dispatcher is
 * a cell of its own; free() returns it. */
static char g_cellA[NMSG + 1][2], g_cella[NMSG + 1][2]; /* error answers, answers */
static int g_ownA[NMSG + 1], g_owna[NMSG + 1], g_own_final, g_own_msgs;
static char g_final[4 * NMSG + 8];
static mcp_message_t g_msgs[NMSG];
static mcp_auth_context_t g_ctxs[NMSG + 1]; static int g_own_ctx[NMSG + 1];
static char *answer_cell(int i) { CHECK(!g_owna[i], "answered once"); g_owna[i] = 1; g_cella[i][0] = (char)('a' + i); g_cella[i][1] = 0; return g_cella[i]; }
static char *error_cell(int i) { CHECK(!g_ownA[i], "one error answer"); g_ownA[i] = 1; g_cellA[i][0] = (char)(i == NMSG ? '?' : 'A' + i); g_cellA[i][1] = 0; return g_cellA[i]; }
static void ledger_free(void *p)
{
    if (!p) return;
    int hit = 0;
    for (int i = 0; i <= NMSG; i++) {
        if (p == (void *)g_cellA[i]) { CHECK(g_ownA[i] == 1, "released once"); g_ownA[i] = 0; hit = 1; }
        if (p == (void *)g_cella[i]) { CHECK(g_owna[i] == 1, "released once"); g_owna[i] = 0; hit = 1; }
    }
    if (p == (void *)g_final) { CHECK(g_own_final == 1, "released once"); g_own_final = 0; hit = 1; }
    if (p == (void *)g_msgs) { CHECK(g_own_msgs == 1, "released once"); g_own_msgs = 0; hit = 1; }
    if (!hit) vh_free(p); /* memory of the code itself */
}
static bool nothing_owned(void)
{
    bool ok = !g_own_final && !g_own_msgs;
    for (int i = 0; i <= NMSG; i++) ok = ok && !g_ownA[i] && !g_owna[i] && !g_own_ctx[i];
    return ok;
}

/* the message parser (decided in C04/C12): an array of classified messages */
int mcp_json_parse_message_or_batch(const char *s, mcp_message_t **m, size_t *n)
{
    *m = NULL; *n = 0;
    if (g_parse_rc) return g_parse_rc;
    mcp_message_t *a = g_msgs;
    g_own_msgs = 1;
    for (int i = 0; i < NMSG; i++) {
        a[i].type = MCP_MESSAGE_TYPE_INVALID;
        if (i < g_count) {
            a[i].type = g_type[i];
            if (g_type[i] == MCP_MESSAGE_TYPE_REQUEST) {
                a[i].request.id = 10 + i;
                a[i].request.method = (char *)METHODS[g_method[i]];
                static char P[NMSG][2];
                P[i][0] = '0' + i; P[i][1] = 0;
                a[i].request.params = g_cred[i] == CRED_NONE ? NULL : P[i];
            } else if (g_type[i] == MCP_MESSAGE_TYPE_NOTIFICATION) {
                a[i].notification.method = (char *)METHODS[g_method[i]]; a[i].notification.params = NULL;
            } else { a[i].response.id = 10 + i; a[i].response.error_code = 0; a[i].response.error_message = NULL; a[i].response.result = NULL; }
        }
    }
    *m = a; *n = (size_t)g_count;
    return 0;
}
void mcp_json_free_message_array(mcp_message_t *m, size_t n)
{ if (m) { CHECK(n == (size_t)g_count, "the whole array is released"); ledger_free(m); } }

/* parsed parameters: object i, member apiKey */
static char g_doc[NMSG], g_key[NMSG];
static char K_GOOD[NMSG][2];
mcp_json_t *mcp_json_parse(const char *s) { if (!s) return NULL; int i = s[0] - '0'; g_json_live++; return (mcp_json_t *)&g_doc[i]; }
void mcp_json_destroy(mcp_json_t *j) { if (j) g_json_live--; }
mcp_json_type_t mcp_json_get_type(const mcp_json_t *j)
{
    const char *p = (const char *)j;
    if (!p) return MCP_JSON_NULL;
    for (int i = 0; i < NMSG; i++) {
        if (p == &g_doc[i]) return MCP_JSON_OBJECT;
        if (p == &g_key[i]) return g_cred[i] == CRED_NOTSTRING ? MCP_JSON_NUMBER : MCP_JSON_STRING;
    }
    return MCP_JSON_NULL;
}
mcp_json_t *mcp_json_object_get_property(const mcp_json_t *j, const char *n)
{
    for (int i = 0; i < NMSG; i++)
        if ((const char *)j == &g_doc[i]) return vh_streq(n, "apiKey") && g_cred[i] >= CRED_NOTSTRING ? (mcp_json_t *)&g_key[i] : NULL;
    return NULL;
}
bool mcp_json_object_has_property(const mcp_json_t *j, const char *n) { return mcp_json_object_get_property(j, n) != NULL; }
int mcp_json_get_string(const mcp_json_t *j, const char **v)
{
    for (int i = 0; i < NMSG; i++)
        if ((const char *)j == &g_key[i] && g_cred[i] != CRED_NOTSTRING) { K_GOOD[i][0] = g_cred[i] == CRED_GOOD ? 'K' : 'X'; *v = K_GOOD[i]; return 0; }
    return -1;
}
/* credential check (decided in C01 verify.c): identity of the message whose
 * credential it was */
static mcp_auth_context_t *g_ctx[NMSG + 1];
int mcp_auth_verify(mcp_server_t *s, mcp_auth_type_t t, const char *c, mcp_auth_context_t **out)
{
    *out = NULL;
    int who = NMSG;
    if (t == MCP_AUTH_NONE) { if (s->config.api_key) return -1; }
    else if (t == MCP_AUTH_API_KEY) {
        if (!key_set() || !c || c[0] != 'K') return -1;
        for (int i = 0; i < NMSG; i++) if (c == K_GOOD[i]) who = i;
    } else return -1;
    mcp_auth_context_t *x = &g_ctxs[who];
    CHECK(!g_own_ctx[who], "one identity at a time");
    x->type = t;
    x->allowed_tools_count = (size_t)who; /* owner */
    g_own_ctx[who] = 1;
    *out = x;
    return 0;
}
void mcp_auth_context_free(mcp_auth_context_t *c) 
{
    if (!c) return;
    int hit = 0;
    for (int i = 0; i <= NMSG; i++) if (c == &g_ctxs[i]) { CHECK(g_own_ctx[i] == 1, "identity released once"); g_own_ctx[i] = 0; hit = 1; }
    if (!hit) vh_free(c);
}

char *create_error_response(uint64_t id, mcp_error_code_t code, const char *m)
{
    CHECK(code != MCP_ERROR_NONE, "an error response carries an error");
    if (id >= 10 && id < 10 + NMSG) { g_errors[id - 10]++; return error_cell((int)(id - 10)); }
    g_other++;
    return error_cell(NMSG);
}
static char *handler(int which, const mcp_request_t *r, const mcp_auth_context_t *c, int *ec)
{
    CHECK(r && r->id >= 10 && r->id < 10 + (uint64_t)g_count, "a handler gets one of the requests");
    int i = (int)(r->id - 10);
    CHECK(g_type[i] == MCP_MESSAGE_TYPE_REQUEST && g_method[i] == which, "the handler of the request's own method runs");
    CHECK(is_ping(i) || authentic(i), "no request is handled whose own credential is wrong");
    if (!is_ping(i)) {
        CHECK(c != NULL, "an identity is attached");
        if (key_set()) CHECK(c && c->type == MCP_AUTH_API_KEY && c->allowed_tools_count == (size_t)i, "the identity is the one of this very message");
    } else if (key_set() && !authentic(i) && c) {
        CHECK(c->allowed_tools_count == (size_t)i || c->allowed_tools_count >= NMSG, "an unauthenticated ping borrows no identity");
    }
    g_ran[i]++;
    if (g_hnull[i]) { *ec = MCP_ERROR_INTERNAL_ERROR; return NULL; }
    *ec = MCP_ERROR_NONE;
    return answer_cell(i);
}
#define H(n, k) char *n(mcp_server_t *s, mcp_arena_t *a, const mcp_request_t *r, const mcp_auth_context_t *c, int *e) { CHECK(s == &g_srv, "own server"); return handler(k, r, c, e); }
H(handle_call_tool_request, 1) H(handle_list_tools_request, 3)
H(handle_read_resource_request, 4) H(handle_list_resources_request, 5) H(handle_list_resource_templates_request, 6)
H(handle_get_performance_metrics_request, 7) H(handle_reset_performance_metrics_request, 8)
/* used by the ping handler, which lives in the dispatcher itself */
char *mcp_json_format_response(uint64_t id, const char *res)
{
    CHECK(id >= 10 && id < 10 + (uint64_t)g_count, "ping answers a request");
    int i = (int)(id - 10);
    CHECK(g_method[i] == 0, "only ping answers by itself");
    g_ran[i]++;
    return g_hnull[i] ? NULL : answer_cell(i);
}
char *mcp_json_create_response(uint64_t id, const char *res) { return mcp_json_format_response(id, res); }
const mcp_backend_info_t *find_backend_for_request(const mcp_request_t *r, const mcp_backend_info_t *b, size_t n) { return NULL; }
char *gateway_forward_request(gateway_pool_manager_t *p, const mcp_backend_info_t *b, const mcp_request_t *r, int *e) { CHECK(0, "forwarded without gateway mode"); return NULL; }

/* growing text buffer (decided in C11): what was appended, in order */
static int g_buf_live;
int dyn_buf_init(dyn_buf_t *d, size_t n) { g_outn = 0; g_buf_live++; d->buffer = g_out; d->length = 0; d->capacity = n; return 0; }
int dyn_buf_ensure_capacity(dyn_buf_t *d, size_t n) { return 0; }
int dyn_buf_append_char(dyn_buf_t *d, char c) { if (g_outn < (int)sizeof g_out - 1) { g_out[g_outn++] = c; } d->length++; return 0; }
int dyn_buf_append(dyn_buf_t *d, const char *s) { if (s[0]) { dyn_buf_append_char(d, s[0]); if (s[1]) dyn_buf_append_char(d, s[1]); } return 0; }
char *dyn_buf_finalize(dyn_buf_t *d)
{
    g_buf_live--;
    char *p = g_final;
    CHECK(!g_own_final, "one final text");
    for (int i = 0; i < (int)sizeof g_out; i++) p[i] = i < g_outn ? g_out[i] : 0;
    g_own_final = 1;
    d->buffer = NULL;
    return p;
}
void dyn_buf_free(dyn_buf_t *d) { if (d->buffer) g_buf_live--; d->buffer = NULL; }

static char g_arena[8];
mcp_arena_t *mcp_arena_get_current(void) { return (mcp_arena_t *)g_arena; }
int mcp_arena_init_current_thread(size_t n) { return 0; }
void mcp_arena_reset_current_thread(void) {}
mcp_performance_timer_t mcp_performance_timer_create(void) { mcp_performance_timer_t t; memset(&t, 0, sizeof t); return t; }
void mcp_performance_collect_request_start(mcp_performance_timer_t *t) {}
void mcp_performance_collect_request_end(mcp_performance_timer_t *t, bool ok, size_t a, size_t b) {}
char *mcp_strdup(const char *s) { return vh_strdup(s); }
#undef free
#define free(p) ledger_free(p)

static char *dispatch(int *ec)
{
    g_outn = 0; g_json_live = 0; g_buf_live = 0; g_other = 0;
    for (int i = 0; i < NMSG; i++) { g_ran[i] = 0; g_errors[i] = 0; g_out[i] = 0; }
    *ec = 77;
    return handle_message(&g_srv, "x", 2, ec);
}
/* expected answer to message i (0: none) */
static char answer(int i)
{
    if (g_type[i] != MCP_MESSAGE_TYPE_REQUEST) return 0;
    if (!is_ping(i) && !authentic(i)) return (char)('A' + i);
    if (g_method[i] == 2 || g_hnull[i]) return (char)('A' + i);
    return (char)('a' + i);
}
