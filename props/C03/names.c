// Every method name reaches exactly its own operation.
//@file funcs=handle_request,handle_ping_request
//@file assume="strlen returns the number of bytes before the terminator;request handlers by contract (stubs)"
//@obl h_local kind=proof unwind=70 note="every method string of any length, every id" standin=h_short
//@obl h_gateway kind=proof unwind=70 note="the same in gateway mode with any backend choice" standin=h_short
//@obl h_short kind=bounded unwind=70 bound="method strings of up to 30 bytes"
#include "vh.h"
static const char *g_m; static size_t g_mlen;
static size_t spec_strlen(const char *s)
{
    if (s == g_m && g_mlen) return g_mlen - 1;
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
#ifndef REPLAY
#define strlen(s) spec_strlen(s)
#endif
#include "internal/server_internal.h"
#include "mcp_thread_local.h"
#include "mcp_string_utils.h"
#include "mcp_gateway_routing.h"
#include "mcp_json_rpc.h"
#include "src/server/mcp_server_dispatch.c"

static const char *const NAMES[] = {"ping", "call_tool", "read_resource", "list_resources", "list_tools", "list_resource_templates",
                                    "get_performance_metrics", "reset_performance_metrics"};
static mcp_server_t S; static mcp_request_t R; static mcp_auth_context_t C; static char A[8];
static int g_which, g_runs, g_err, g_fwd; static uint64_t g_errid; static int g_errcode;
static char g_resp, g_eresp, g_fresp;
static char *op(int k, mcp_server_t *s, const mcp_request_t *r, const mcp_auth_context_t *c, int *e)
{
    CHECK(s == &S && r == &R && c == &C, "the request itself is passed on");
    g_runs++; g_which = k; *e = in_i32("operr");
    return &g_resp;
}
#define H(n, k) char *n(mcp_server_t *s, mcp_arena_t *a, const mcp_request_t *r, const mcp_auth_context_t *c, int *e) { return op(k, s, r, c, e); }
H(handle_call_tool_request, 1) H(handle_read_resource_request, 2) H(handle_list_resources_request, 3) H(handle_list_tools_request, 4)
H(handle_list_resource_templates_request, 5) H(handle_get_performance_metrics_request, 6) H(handle_reset_performance_metrics_request, 7)
char *mcp_json_format_response(uint64_t id, const char *r) { CHECK(id == R.id, "ping answers its own request"); g_runs++; g_which = 0; return &g_resp; }
char *mcp_json_create_response(uint64_t id, const char *r) { return mcp_json_format_response(id, r); }
char *create_error_response(uint64_t id, mcp_error_code_t code, const char *m) { g_err++; g_errid = id; g_errcode = code; return &g_eresp; }
static mcp_backend_info_t B[2]; static int g_choice;
const mcp_backend_info_t *find_backend_for_request(const mcp_request_t *r, const mcp_backend_info_t *b, size_t n)
{ CHECK(r == &R && b == B && n == 2, "routing looks at this request and the configured backends"); return g_choice < 0 ? NULL : &B[g_choice]; }
char *gateway_forward_request(gateway_pool_manager_t *p, const mcp_backend_info_t *b, const mcp_request_t *r, int *e)
{ CHECK(p == S.pool_manager && p && b == &B[g_choice] && r == &R, "forwarded unchanged to the chosen backend"); g_fwd++; return &g_fresp; }
int mcp_json_parse_message_or_batch(const char *s, mcp_message_t **m, size_t *n) { return -1; }
mcp_arena_t *mcp_arena_get_current(void) { return (mcp_arena_t *)A; }

static bool same(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
static void run(bool gateway, size_t len, char *m)
{
    g_m = m; g_mlen = len + 1;
    R.id = in_u64("id"); R.method = m; R.params = NULL;
    int ec = 5;
    S.is_gateway_mode = gateway; S.backends = B; S.backend_count = 2;
    S.pool_manager = (gateway_pool_manager_t *)(in_bool("pm") ? &A : NULL);
    g_choice = gateway ? in_i32("choice") : -1;
    ASSUME(g_choice >= -1 && g_choice <= 1);
    int expect = -1;
    static const int L[8] = {4, 9, 13, 14, 10, 23, 23, 25};
    for (int k = 0; k < 8; k++) if (len == (size_t)L[k] && same(m, NAMES[k], (size_t)L[k])) expect = k;
    char *r = handle_request(&S, (mcp_arena_t *)A, &R, &C, &ec);
    if (gateway && g_choice >= 0) {
        CHECK(g_runs == 0, "a forwarded request is not handled locally as well");
        if (S.pool_manager) CHECK(g_fwd == 1 && r == &g_fresp, "the backend's answer is returned");
        else CHECK(g_fwd == 0 && g_err == 1 && g_errid == R.id && r == &g_eresp && ec != 0, "no pool: an error under the request's id");
    } else {
        CHECK(g_fwd == 0, "not forwarded");
        if (expect >= 0) CHECK(g_runs == 1 && g_which == expect && r == &g_resp && !g_err, "exactly the operation of that name runs and its response is returned");
        else CHECK(g_runs == 0 && g_err == 1 && g_errid == R.id && g_errcode == MCP_ERROR_METHOD_NOT_FOUND && ec == MCP_ERROR_METHOD_NOT_FOUND && r == &g_eresp, "an unknown name gets method-not-found under the request's id");
    }
    REACH("dispatched");
}
static void anylen(bool gateway)
{
    size_t len = in_size("len");
    ASSUME(len < ((size_t)1 << 30));
#ifdef REPLAY
    char *m = malloc(len + 1 < 64 ? 64 : len + 1);
    for (size_t i = 0; i < len; i++) m[i] = 'x';
#else
    char *m = malloc(len + 1);
#endif
    for (size_t i = 0; i < 32; i++) if (i < len) { m[i] = (char)in_u8("m"); ASSUME(m[i] != 0); }
    m[len] = 0;
    run(gateway, len, m);
}
void h_local(void) { anylen(false); }
void h_gateway(void) { anylen(true); }
void h_short(void)
{
    static char m[32];
    IN_STR("m", m, 31);
    size_t n = 0;
    while (m[n]) n++;
    run(in_bool("gw"), n, m);
}
