// A call ends once, with its own response, a transport error or a timeout, whatever arrives while it waits.
//@file funcs=mcp_client_send_and_wait,mcp_client_receive_callback,mcp_client_transport_error_callback
//@obl h_wait0 kind=bounded unwind=66 objbits=12 note="a call among others, table of 4; every pair of events during the first wait, then one event during the second; with a timeout"
//@obl h_wait1 kind=bounded unwind=66 objbits=12 note="the same without a timeout"
//@obl h_early kind=bounded unwind=20 objbits=12 note="responses and errors before the wait, sending that fails, allocations that fail"
//@obl h_direct kind=bounded unwind=20 objbits=12 note="transports that answer directly: own response, error, another's response, none, unreadable"
#include "vh.h"
#define VH_ON_WAIT(c, m) on_wait(c, m)
static void on_wait(void *c, void *m);
#define mcp_cond_wait vh_cond_wait
#define mcp_cond_timedwait vh_cond_timedwait
#include "vh_sync.h"
#undef mcp_cond_wait
#undef mcp_cond_timedwait
#include "src/client/internal/client_internal.h"
#include "mcp_log.h"
#include "mcp_json_rpc.h"
#include <string.h>
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#define snprintf(b, n, ...) ((b)[0] = 'x', (b)[1] = 0, 1)
#endif
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_ERROR; }
void *mcp_thread_cache_alloc(size_t n) { return malloc(n); }
void mcp_thread_cache_free(void *p, size_t n) { (void)n; free(p); }
char *mcp_strdup(const char *s) { if (!s) return NULL; int n = 0; while (s[n]) n++; char *p = (char *)malloc((size_t)n + 1); if (p) for (int i = 0; i <= n; i++) p[i] = s[i]; return p; }
int mcp_cond_wait(mcp_cond_t *c, mcp_mutex_t *m); int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms);
#include "src/client/mcp_client_hash_table.c"
#include "src/client/mcp_client_request.c"
#include "src/client/mcp_client_core.c"
enum { NOTHING, ANSWER, FAILURE, OTHERS, UNKNOWN, BROKEN, GROWTH, UNREADABLE, EVENTS };
enum { WAITING, ANSWERED, FAILED, BROKE, GAVEUP };
static mcp_client_t C; static struct mcp_mutex_s M; static int g_waits, g_script[2][2], g_ret[2], g_pre, g_state, g_other, g_more, g_protocol, g_sendv, g_direct;
static char *o_result, *o_message, *p_result[3], *p_message[3]; static mcp_error_code_t o_code, p_code[3];
/* the bytes name the response: who, and how it ends */
int mcp_json_parse_response(const char *j, uint64_t *id, mcp_error_code_t *code, char **message, char **result)
{
    if (j[0] == '!') return -1;
    *id = j[0] == '7' ? 7 : j[0] == 'o' ? 15 : 99; *code = MCP_ERROR_NONE; *message = *result = NULL;
    if (j[1] == 'e') { *code = MCP_ERROR_INVALID_PARAMS; *message = mcp_strdup("m"); } else *result = mcp_strdup(j);
    return 0;
}
mcp_transport_protocol_t mcp_transport_get_protocol(mcp_transport_t *t) { return (mcp_transport_protocol_t)g_protocol; }
static int reg(uint64_t id, int k) { pending_request_t r; memset(&r, 0, sizeof r); r.id = id; r.status = PENDING_REQUEST_WAITING; r.result_ptr = &p_result[k]; r.error_code_ptr = &p_code[k]; r.error_message_ptr = &p_message[k]; r.cv = mcp_cond_create(); return mcp_client_add_pending_request_entry(&C, id, &r); }
static void tell(const char *s) { int e; CHECK(mcp_client_receive_callback(&C, s, 3, &e) == NULL, "no reply to a reply"); }
static void event(int e)
{
    switch (e) {
    case ANSWER: tell("7a"); if (g_state == WAITING) g_state = ANSWERED; break;
    case FAILURE: tell("7e"); if (g_state == WAITING) g_state = FAILED; break;
    case OTHERS: tell("oa"); if (g_other == WAITING) g_other = ANSWERED; break;
    case UNKNOWN: tell("ua"); break;
    case UNREADABLE: tell("!!"); break;
    case BROKEN: mcp_client_transport_error_callback(&C, 5); if (g_state == WAITING) g_state = BROKE; if (g_other == WAITING) g_other = BROKE; break;
    case GROWTH: if (!g_more) { mcp_mutex_lock(&M); CHECK(reg(23, 1) == 0 && reg(31, 2) == 0, "two more"); mcp_mutex_unlock(&M); g_more = 1; } break;
    default: break;
    }
}
static int waiting(mcp_cond_t *c, mcp_mutex_t *m)
{
    CHECK(m == &M && m->held, "waits with the lock"); CHECK(g_state == WAITING, "waits only for what has not come"); (void)c->signals;
    if (g_waits >= 2) { CHECK(g_waits == 2, "ends"); g_waits++; m->held = 0; vh_locks_held--; event(ANSWER); m->held = 1; vh_locks_held++; return 0; }
    int w = g_waits++; m->held = 0; vh_locks_held--; event(g_script[w][0]); event(g_script[w][1]); m->held = 1; vh_locks_held++;
    if (g_ret[w] != 0 && g_state == WAITING) g_state = GAVEUP;
    return g_ret[w];
}
static void on_wait(void *c, void *m) { (void)c; (void)m; }
int mcp_cond_wait(mcp_cond_t *c, mcp_mutex_t *m) { CHECK(C.config.request_timeout_ms == 0, "no timeout"); return waiting(c, m); }
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) { CHECK(ms == 250 && C.config.request_timeout_ms == 250, "the configured timeout"); return waiting(c, m); }
int mcp_transport_sendv(mcp_transport_t *t, const mcp_buffer_t *b, size_t n)
{
    CHECK(t == C.transport && n == 2 && b[0].size == 4 && b[1].size == 2 && vh_locks_held == 0, "the request"); const uint8_t *l = (const uint8_t *)b[0].data; CHECK(l[0] == 0 && l[1] == 0 && l[2] == 0 && l[3] == 2 && ((const char *)b[1].data)[0] == '{', "framed"); event(g_pre); return g_sendv;
}
int mcp_transport_receive(mcp_transport_t *t, char **d, size_t *n, uint32_t ms)
{
    static const char *const S[] = {"7a", "7e", "oa", "!!"}; CHECK(t == C.transport && ms == 250, "the timeout");
    if (g_direct == 4) return -1;
    if (g_direct == 5) { *d = NULL; *n = 0; return 0; }
    *d = mcp_strdup(S[g_direct]); *n = *d ? 2 : 0; return 0;
}
static bool same(const char *a, const char *b) { if (!a || !b) return a == b; int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static int call(int timeout, bool others)
{
    memset(&C, 0, sizeof C); C.config.request_timeout_ms = (uint32_t)timeout; static char T[1]; C.transport = (mcp_transport_t *)T; M.held = 0; C.pending_requests_mutex = &M; C.pending_requests_capacity = 4; C.pending_requests_table = (pending_request_entry_t *)calloc(4, sizeof(pending_request_entry_t));
    g_waits = 0; g_state = g_other = WAITING; g_more = 0; for (int k = 0; k < 3; k++) { p_result[k] = p_message[k] = NULL; p_code[k] = MCP_ERROR_NONE; }
    if (others) CHECK(reg(15, 0) == 0, "another call");
    return mcp_client_send_and_wait(&C, "{}", 7, &o_result, &o_code, &o_message);
}
static void after(int r, bool others, bool nomem)
{
    CHECK(vh_locks_held == 0, "no lock kept"); pending_request_entry_t *e = mcp_client_find_pending_request_entry(&C, 7, false); CHECK(!e || e->request.status == PENDING_REQUEST_INVALID, "no longer outstanding");
    if (g_state == ANSWERED) CHECK(r == 0 && o_code == MCP_ERROR_NONE && same(o_result, "7a") && !o_message, "its own answer");
    else { CHECK(r == -1 && !o_result, "no answer"); if (!nomem) CHECK(o_code != MCP_ERROR_NONE, "an error"); }
    if (g_state == FAILED) CHECK(o_code == MCP_ERROR_INVALID_PARAMS && same(o_message, "m"), "its own error");
    if (g_state == BROKE) CHECK(o_code == MCP_ERROR_TRANSPORT_ERROR, "the transport's error");
    size_t n = 0;
    if (others) {
        e = mcp_client_find_pending_request_entry(&C, 15, false); CHECK(e && e->request.result_ptr == &p_result[0], "the other call is still known"); n = g_more ? 3 : 1;
        CHECK((e->request.status == PENDING_REQUEST_WAITING) == (g_other == WAITING) && (e->request.cv->signals > 0) == (g_other != WAITING), "and woken once it has ended"); CHECK(same(p_result[0], g_other == ANSWERED ? "oa" : NULL) && p_code[0] == (g_other == BROKE ? MCP_ERROR_TRANSPORT_ERROR : MCP_ERROR_NONE), "with what is its own"); CHECK(mcp_client_remove_pending_request_entry(&C, 15) == 0, "removed");
        if (g_more) CHECK(mcp_client_remove_pending_request_entry(&C, 23) == 0 && mcp_client_remove_pending_request_entry(&C, 31) == 0, "as are the others");
    }
    CHECK(C.pending_requests_count == 0, "counted"); free(C.pending_requests_table); free(o_result); free(o_message); o_result = o_message = NULL; for (int k = 0; k < 3; k++) { free(p_result[k]); free(p_message[k]); }
    CHECK(vh_live == 0, "nothing is lost");
}
static void waits(int timeout)
{
    g_protocol = MCP_TRANSPORT_PROTOCOL_TCP; g_pre = NOTHING; g_sendv = 0;
    for (int a = 0; a < EVENTS; a++) for (int b = 0; b < EVENTS; b++) {
        g_script[0][0] = a; g_script[0][1] = b; g_script[1][0] = (a + b) % 2 ? FAILURE : NOTHING; g_script[1][1] = NOTHING; g_ret[0] = timeout && a % 3 == 1 ? -2 : 0; g_ret[1] = timeout ? (b % 2 ? -2 : -1) : 0;
        after(call(timeout, true), true, false);
    }
    REACH("done");
}
void h_wait0(void) { waits(250); }
void h_wait1(void) { waits(0); }
void h_early(void)
{
    static const int P[] = {ANSWER, FAILURE, BROKEN, UNKNOWN, GROWTH};
    g_protocol = MCP_TRANSPORT_PROTOCOL_TCP; g_script[0][0] = g_script[0][1] = g_script[1][0] = g_script[1][1] = NOTHING; g_ret[0] = 0; g_ret[1] = -2;
    for (int k = 0; k < 5; k++) { g_pre = P[k]; g_sendv = 0; after(call(250, true), true, false); }
    g_pre = NOTHING; g_sendv = -1; { int r = call(250, true); g_state = GAVEUP; after(r, true, true); }
    g_sendv = 0; g_script[0][1] = ANSWER;
    for (int k = 0; k < 5; k++) { vh_fail_point(k + 1); int r = call(250, false); bool f = vh_alloc_failed; vh_fail_point(-1); if (r != 0) g_state = GAVEUP; if (g_state == ANSWERED && f && !o_result) { free(C.pending_requests_table); CHECK(vh_live == 0, "nothing is lost"); } else after(r, false, true); }
    REACH("done");
}
void h_direct(void)
{
    g_pre = NOTHING; g_sendv = 0;
    for (int p = 0; p < 2; p++) for (g_direct = 0; g_direct < 6; g_direct++) {
        g_protocol = p ? MCP_TRANSPORT_PROTOCOL_HTTP : MCP_TRANSPORT_PROTOCOL_WEBSOCKET; int r = call(250, false);
        CHECK(g_waits == 0, "no wait"); g_state = g_direct == 0 ? ANSWERED : g_direct == 1 ? FAILED : GAVEUP; after(r, false, false);
    }
    REACH("done");
}
