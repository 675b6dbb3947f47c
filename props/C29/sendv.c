// The transport's send hands the whole message to every client.
//@file funcs=sthttp_transport_send,sthttp_transport_sendv
//@file assume="the registry by its contract (decided in clients.c)"
//@obl h_sendv kind=bounded unwind=8 note="messages in 1-3 parts of up to 2 bytes, arbitrary content; no memory"
#include "vh_sync.h"
#include "src/transport/mcp_sthttp_transport.c"
static dynamic_sse_clients_t C; static sthttp_transport_data_t D; static mcp_transport_t T; static int g_told, g_result; static char g_want[8]; static size_t g_len;
int dynamic_sse_clients_broadcast(dynamic_sse_clients_t *c, const char *id, const char *type, const char *data)
{
    CHECK(c == &C && type != NULL, "this transport's clients"); g_told++;
    for (size_t i = 0; i < 8; i++) if (i < g_len) CHECK(data[i] == g_want[i], "the message");
    CHECK(data[g_len] == 0, "and nothing else");
    return g_result;
}
static void one(size_t a, size_t b, size_t c, int parts)
{
    static char x[3][2]; size_t n[3] = {a, b, c}; mcp_buffer_t v[3]; g_len = 0;
    for (int i = 0; i < parts; i++) { for (size_t k = 0; k < n[i]; k++) { x[i][k] = (char)in_u8("c"); g_want[g_len++] = x[i][k]; } v[i].data = x[i]; v[i].size = n[i]; }
    g_told = 0; g_result = in_bool("some") ? 2 : 0; D.running = true; D.sse_clients = &C; T.transport_data = &D;
    vh_fail_point(in_bool("nomem") ? 0 : -1);
    int r = parts == 1 ? sthttp_transport_send(&T, x[0], n[0]) : sthttp_transport_sendv(&T, v, (size_t)parts);
    CHECK(g_told == (vh_alloc_failed ? 0 : 1) && r == (g_told && g_result > 0 ? 0 : -1), "sent once, the outcome reported");
    CHECK(vh_live == 0, "the copy is released");
    vh_fail_point(-1);
}
void h_sendv(void)
{
    one(2, 0, 0, 1); one(1, 0, 0, 1);
    for (size_t a = 0; a <= 2; a++) for (size_t b = 0; b <= 2; b++) { one(a, b, 0, 2); one(a, b, 1, 3); }
    REACH("sent");
}
