// The endpoint handlers act only for allowed origins (validate_origin by contract).
//@file funcs=handle_mcp_post_request,handle_mcp_get_request,handle_mcp_delete_request,handle_mcp_endpoint_request,process_jsonrpc_request
//@file trusted="libwebsockets header/write calls (stubs: arbitrary results)" assume="validate_origin by its contract (decided in origin.c)"
//@obl h_gate_post kind=proof unwind=40 note="every origin, body and verdict"
//@obl h_gate_get kind=proof unwind=90 note="every origin and verdict" cost=2
//@obl h_gate_delete kind=proof unwind=40 note="every origin, session and verdict"
//@obl h_gate_any kind=proof unwind=90 note="every method as well" cost=2
#include "vh_sync.h"
#include "src/transport/mcp_sthttp_threads.c"

static bool g_verdict; static int g_asked, g_served, g_registered, g_terminated, g_error, g_ctx;
static sthttp_transport_data_t D; static sthttp_session_data_t S;
static char g_resp[4]; static bool g_found; static int g_touched, g_lookups;
bool validate_origin(sthttp_transport_data_t *d, const char *o)
{ CHECK(d == &D && o == S.origin, "the request's own origin is checked against the configured list"); g_asked++; return g_verdict; }
static char *cb(void *u, const void *d, size_t n, int *err)
{ (void)u; (void)d; (void)n; g_served++; *err = in_bool("cberr") ? -1 : 0; if (in_bool("cbnull")) return NULL; char *p = malloc(4); if (p) p[0] = 0; return p; }
int send_http_error_response(struct lws *w, int c, const char *m) { (void)w; (void)m; CHECK(c >= 400, "an error status"); g_error++; return in_bool("werr") ? -1 : 0; }
int send_http_json_response(struct lws *w, const char *j, const char *s) { (void)w; (void)j; (void)s; return 0; }
int send_sse_event(struct lws *w, const char *i, const char *t, const char *d) { return 0; }
int lws_hdr_copy(struct lws *w, char *dst, int len, enum lws_token_indexes h)
{ const char *v = in_bool("sse") ? "text/event-stream" : "x"; int i = 0; for (; v[i] && i < len - 1; i++) dst[i] = v[i]; dst[i] = 0; return i; }
int lws_hdr_total_length(struct lws *w, enum lws_token_indexes h) { int r = in_i32("hlen"); ASSUME(r >= 0 && r < 4096); return r; }
int lws_http_get_uri_and_method(struct lws *w, char **u, int *l) { int r = in_i32("meth"); return r; }
mcp_http_session_t *mcp_session_manager_get_session(mcp_http_session_manager_t *m, const char *s) { CHECK(s == S.session_id, "own session"); g_lookups++; return g_found ? (mcp_http_session_t *)g_resp : NULL; }
void mcp_session_touch(mcp_http_session_t *s) { CHECK((char *)s == g_resp && g_found, "the session found is renewed"); g_touched++; }
bool mcp_session_manager_terminate_session(mcp_http_session_manager_t *m, const char *s) { g_terminated++; return in_bool("term"); }
size_t mcp_session_manager_cleanup_expired(mcp_http_session_manager_t *m) { return 0; }
sse_stream_context_t *sse_stream_context_create(size_t n) { g_ctx++; return in_bool("ctx") ? (sse_stream_context_t *)g_resp : NULL; }
bool extract_last_event_id(struct lws *w, char *o) { if (in_bool("leid")) { o[0] = '7'; o[1] = 0; return true; } o[0] = 0; return false; }
int lws_add_http_header_status(struct lws *w, unsigned int c, unsigned char **p, unsigned char *e) { return in_bool("h1"); }
int lws_add_http_header_by_token(struct lws *w, enum lws_token_indexes t, const unsigned char *v, int l, unsigned char **p, unsigned char *e) { return in_bool("h2"); }
int lws_add_http_header_by_name(struct lws *w, const unsigned char *n, const unsigned char *v, int l, unsigned char **p, unsigned char *e) { return in_bool("h3"); }
int lws_finalize_http_header(struct lws *w, unsigned char **p, unsigned char *e) { return in_bool("h4"); }
int lws_write(struct lws *w, unsigned char *b, size_t n, enum lws_write_protocol t) { return in_bool("h5") ? -1 : 1; }
int lws_http_transaction_completed(struct lws *w) { return in_bool("h6"); }
void add_streamable_cors_headers(struct lws *w, sthttp_transport_data_t *d, unsigned char **p, unsigned char *e) {}
int dynamic_sse_clients_add(dynamic_sse_clients_t *c, struct lws *w) { g_registered++; return in_bool("add") ? -1 : 0; }
int dynamic_sse_clients_broadcast_heartbeat(dynamic_sse_clients_t *c) { return 0; }
size_t dynamic_sse_clients_count(dynamic_sse_clients_t *c) { return 0; }
size_t dynamic_sse_clients_cleanup(dynamic_sse_clients_t *c) { return 0; }
int sse_stream_context_replay_events(sse_stream_context_t *c, struct lws *w, const char *l) { CHECK(g_registered, "replay only after registration"); return 0; }
int lws_service(struct lws_context *c, int t) { return 0; }
void mcp_sleep_ms(uint32_t ms) {}
int add_optimized_cors_headers(struct lws *w, const sthttp_transport_data_t *d, unsigned char **p, unsigned char *e) { return in_bool("cors") ? -1 : 0; }

static void gate(int m)
{
    vh_clock_mode = 1; vh_now = 7;
    static char body[] = "{}"; static char wsi;
    D.message_callback = cb;
    D.validate_origin = in_bool("validate");
    D.session_manager = (mcp_http_session_manager_t *)(in_bool("sm") ? g_resp : NULL);
    D.global_sse_context = (sse_stream_context_t *)(in_bool("gctx") ? g_resp : NULL);
    S.origin[0] = (char)in_u8("o0");
    S.has_session = in_bool("has"); S.session_id[0] = 'a';
    if (in_bool("body")) { S.request_body = body; S.request_body_size = 2; }
    g_verdict = in_bool("verdict");
    g_found = in_bool("found");
    bool refused = D.validate_origin && S.origin[0] && !g_verdict;
    struct lws *w = (struct lws *)&wsi;
    if (m == 0) handle_mcp_post_request(w, &D, &S);
    else if (m == 1) handle_mcp_get_request(w, &D, &S);
    else if (m == 2) handle_mcp_delete_request(w, &D, &S);
    else handle_mcp_endpoint_request(w, &D, &S);
    if (refused) {
        CHECK(!g_served && !g_registered && !g_terminated && !g_ctx, "a refused origin is not served in any way");
        REACH("refused");
    } else if (m == 0 && S.request_body) {
        CHECK(g_served == 1, "an allowed request is served once");
    } else if (m == 2 && S.has_session && D.session_manager) CHECK(g_terminated == 1, "an allowed termination is carried out");
    if (!refused) REACH("let through");
    CHECK(g_served <= 1 && g_registered <= 1 && g_terminated <= 1, "at most once");
}

void h_gate_post(void) { gate(0); }
void h_gate_get(void) { gate(1); }
void h_gate_delete(void) { gate(2); }
void h_gate_any(void) { gate(3); }
