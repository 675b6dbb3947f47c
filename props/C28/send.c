// From the transport interface to the queue: what a caller hands over in one or
// several buffers is queued as one message, in order.
//@file funcs=mqtt_client_transport_send,mqtt_client_transport_sendv,mqtt_serialize_mcp_message
//@file assume="queueing by its contract (decided in queue.c)"
//@obl h_sendv kind=bounded unwind=8 note="1-3 buffers of 0-3 bytes, every content, each allocation failing in turn"
#include "vh.h"
#include "vh_sync.h"
#include "src/transport/mcp_mqtt_client_transport.c"
static mcp_mqtt_client_transport_data_t g_c; static mcp_transport_t g_t; static mcp_mutex_t g_m; static char g_topic[2] = "t";
static unsigned char g_b[9]; static size_t g_total; static int g_calls; static bool g_ok;
long long mcp_get_time_ms(void) { return 1; }
int mqtt_serialize_mcp_message(const void *d, size_t n, void **o, size_t *on)
{ *o = malloc(n); if (!*o) return -1; for (size_t i = 0; i < n; i++) ((unsigned char *)*o)[i] = ((const unsigned char *)d)[i]; *on = n; return 0; }
int mqtt_enqueue_message(mcp_mqtt_transport_data_t *d, const char *topic, const void *p, size_t n, int qos, bool retain)
{
    CHECK(d == &g_c.base && topic == g_topic && n == g_total && qos == 1 && retain, "one message with all of it");
    for (size_t i = 0; i < n; i++) CHECK(((const unsigned char *)p)[i] == g_b[i], "in order");
    g_calls++; return g_ok ? 0 : -1;
}
static void one(int a, int b, int c, int k, bool conn)
{
    mcp_buffer_t v[3] = {{g_b, (size_t)a}, {g_b + a, (size_t)b}, {g_b + a + b, (size_t)c}}; g_total = (size_t)(a + b + c); g_calls = 0;
    g_c.base.connection_state = conn ? MCP_MQTT_CLIENT_CONNECTED : MCP_MQTT_CLIENT_DISCONNECTED;
    long base = vh_live; vh_fail_point(k); int r = g_t.client.sendv(&g_t, v, c ? 3 : b ? 2 : 1); int failed = vh_alloc_failed; vh_fail_point(-1);
    CHECK(vh_live == base, "temporary copies are released");
    if (failed || !conn || !g_total) CHECK(r != 0 && !g_calls, "refused");
    else CHECK(g_calls == 1 && (r == 0) == g_ok, "and the outcome reported");
}
void h_sendv(void)
{
    g_m.alive = 1; g_c.stats_mutex = &g_m; g_c.base.stats_mutex = &g_m; g_c.base.resolved_request_topic = g_topic; g_c.base.config.qos = 1; g_c.base.config.retain = true;
    g_t.transport_data = &g_c; g_t.client.sendv = mqtt_client_transport_sendv; g_t.client.send = mqtt_client_transport_send; g_ok = in_bool("ok");
    for (int i = 0; i < 9; i++) g_b[i] = in_u8("byte");
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b += 3) for (int c = 0; c < 3; c += 2) for (int k = -1; k < 2; k++) one(a, b, c, k, true);
    one(1, 0, 0, -1, false);
    REACH("done");
}
