// A closed connection is taken out of the registry:
// the registry is asked to remove this connection.
//@file funcs=handle_closed_http
//@file assume="the registry by its contract (decided in clients.c)"
//@obl h_closed kind=proof unwind=2
#include "vh_sync.h"
#include "src/transport/mcp_sthttp_callbacks.c"
static char g_obj[1], g_ctxobj[1]; static int g_removed, g_destroyed; static sthttp_transport_data_t D; static sthttp_session_data_t S; static dynamic_sse_clients_t C;
int dynamic_sse_clients_remove(dynamic_sse_clients_t *c, struct lws *w) { CHECK(c == &C && (char *)w == g_obj, "this client"); g_removed++; return in_bool("r") ? 0 : -1; }
size_t dynamic_sse_clients_count(dynamic_sse_clients_t *c) { return 0; }
void sse_stream_context_destroy(sse_stream_context_t *c) { CHECK((char *)c == g_ctxobj, "its context"); g_destroyed++; }
int handle_mcp_endpoint_request(struct lws *w, sthttp_transport_data_t *d, sthttp_session_data_t *s) { return 0; }
int handle_mcp_get_request(struct lws *w, sthttp_transport_data_t *d, sthttp_session_data_t *s) { return 0; }
int send_http_json_response(struct lws *w, const char *j, const char *s) { return 0; }
int send_http_error_response(struct lws *w, int c, const char *m) { return 0; }
bool extract_session_id(struct lws *w, char *o) { return false; }
void h_closed(void)
{
    D.sse_clients = &C; S.is_sse_stream = in_bool("sse"); bool ctx = in_bool("ctx"); S.sse_context = ctx ? (sse_stream_context_t *)(void *)g_ctxobj : NULL;
    S.request_body = in_bool("body") ? (char *)malloc(4) : NULL; g_removed = g_destroyed = 0;
    handle_closed_http((struct lws *)(void *)g_obj, &D, &S);
    CHECK(g_removed == (S.is_sse_stream ? 1 : 0), "a closed stream is taken out, once");
    CHECK(g_destroyed == (ctx ? 1 : 0) && S.sse_context == NULL && S.request_body == NULL && vh_live == 0, "its data is released once");
    REACH("closed");
}
