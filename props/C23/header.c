// A request that names an origin never reaches a handler as one that names none.
//@file funcs=lws_callback_sthttp,extract_origin_header,extract_session_header,handle_http_request,handle_wsi_create
//@file trusted="libwebsockets header access by its documented contract"
//@obl h_header kind=proof unwind=260 note="every origin header length and content, fresh or reused connection" cost=2
#include "vh_sync.h"
#include "src/transport/mcp_sthttp_callbacks.c"

static int g_olen, g_post; static char g_o0;
static sthttp_transport_data_t D; static sthttp_session_data_t S;
static int g_handled, g_error;
int lws_hdr_total_length(struct lws *w, enum lws_token_indexes h)
{ if (h == WSI_TOKEN_ORIGIN) return g_olen; if (h == WSI_TOKEN_POST_URI) return g_post; return 0; }
/* libwebsockets: absent -> 0; does not fit -> -1; else copy, terminate, length */
int lws_hdr_copy(struct lws *w, char *dst, int len, enum lws_token_indexes h)
{
    CHECK(h == WSI_TOKEN_ORIGIN, "origin header");
    dst[0] = 0;
    if (len <= g_olen) return -1;
    if (!g_olen) return 0;
    CHECK(dst == S.origin && len <= (int)sizeof S.origin, "stays inside the buffer");
    dst[0] = g_o0; dst[g_olen] = 0;
    return g_olen;
}
static void reached(void)
{
    g_handled++;
    CHECK(g_olen == 0 || !D.validate_origin || S.origin[0] != 0, "a request that names an origin is never treated as one that names none");
    CHECK(g_olen > 0 || S.origin[0] == 0, "no origin is taken over from an earlier request");
    if (g_olen > 0 && g_olen < (int)sizeof S.origin) CHECK(S.origin[0] == g_o0 && S.origin[g_olen] == 0, "the origin checked is the one the request names");
}
bool extract_session_id(struct lws *w, char *o) { bool r = in_bool("sid"); o[0] = r ? 'a' : 0; return r; }
int handle_mcp_endpoint_request(struct lws *w, sthttp_transport_data_t *d, sthttp_session_data_t *s) { CHECK(d == &D && s == &S, "own data"); reached(); return 0; }
int handle_mcp_get_request(struct lws *w, sthttp_transport_data_t *d, sthttp_session_data_t *s) { reached(); return 0; }
int send_http_json_response(struct lws *w, const char *j, const char *s) { return 0; }
int send_http_error_response(struct lws *w, int c, const char *m) { g_error++; return 0; }
void sse_stream_context_destroy(sse_stream_context_t *c) {}
int dynamic_sse_clients_remove(dynamic_sse_clients_t *c, struct lws *w) { return 0; }
size_t dynamic_sse_clients_count(dynamic_sse_clients_t *c) { return 0; }
struct lws_context *lws_get_context(const struct lws *w) { return NULL; }
void *lws_context_user(struct lws_context *c) { return &D; }
int lws_callback_http_dummy(struct lws *w, enum lws_callback_reasons r, void *u, void *i, size_t l) { return 0; }

void h_header(void)
{
    static char wsi;
    struct lws *w = (struct lws *)&wsi;
    lws_callback_function *cb = sthttp_protocols[0].callback;
    D.mcp_endpoint = "/mcp"; D.validate_origin = in_bool("validate"); D.config.enable_legacy_endpoints = in_bool("legacy");
    for (size_t i = 0; i < sizeof S; i++) ((char *)&S)[i] = 0;
    S.origin[0] = (char)in_u8("old"); /* left over from an earlier request on the connection */
    if (in_bool("fresh")) { cb(w, LWS_CALLBACK_HTTP_BIND_PROTOCOL, &S, NULL, 0); CHECK(S.origin[0] == 0, "a new connection starts without an origin"); }
    g_olen = in_i32("olen"); ASSUME(g_olen >= 0 && g_olen < 100000);
    g_o0 = (char)in_u8("o0"); ASSUME(g_o0 != 0);
    g_post = in_bool("post");
    bool fits = g_olen < (int)sizeof S.origin;
    char *uri = in_bool("uri") ? "/mcp" : "/events";
    int r = cb(w, LWS_CALLBACK_HTTP, &S, uri, 4);
    if (r == 0 && !g_error && g_post && vh_streq(uri, "/mcp")) { cb(w, LWS_CALLBACK_HTTP_BODY_COMPLETION, &S, NULL, 0); CHECK(g_handled == 1, "a posted message is handled when complete"); }
    if (fits && vh_streq(uri, "/mcp")) { CHECK(g_handled == 1 && !g_error, "a request with a usable origin reaches its handler"); REACH("handled"); }
    if (!fits && D.validate_origin) { CHECK(!g_handled, "an origin too long to check is refused"); REACH("too long"); }
}
