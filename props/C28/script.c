// Whole runs: a queue with room for 1 to 3 messages, offered four and drained
// in six interleavings of offering and publishing; then closed.
//@file funcs=mqtt_enqueue_message,mqtt_process_message_queue,mqtt_transport_data_init,mqtt_transport_data_cleanup,mcp_mqtt_transport_publish
//@obl h_script kind=bounded unwind=10 note="limits 1 to 3, four messages, six interleavings of offering and publishing, then closed with messages left"
//@obl h_fail kind=bounded unwind=10 note="each allocation failing in turn"
#include "vh.h"
#include "vh_sync.h"
#include "src/transport/internal/mqtt_transport_internal.h"
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#include "src/transport/mcp_mqtt_common.c"
#include "src/transport/mcp_mqtt_transport.c"
#define N 4
#define ROUNDS 8
static mcp_mqtt_client_transport_data_t g_c; static mcp_transport_t g_t; static char g_wsi[1]; static unsigned char g_byte[N]; static int g_qos[N]; static bool g_ret[N], g_in[N];
static const char *const TOPIC[N] = {"a", "bb", "a", "dd/d"}; static int g_next, g_offered, g_sent; static const mcp_mqtt_config_t g_cfg;
long long mcp_get_time_ms(void) { return 1; }
char *mcp_strdup(const char *s) { size_t n = 0; while (s[n]) n++; char *p = (char *)malloc(n + 1); if (p) for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
static bool same(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
int lws_mqtt_client_send_publish(struct lws *wsi, lws_mqtt_publish_param_t *pub, const void *buf, uint32_t len, int is_complete)
{
    while (g_next < g_offered && !g_in[g_next]) g_next++;
    CHECK(g_next < g_offered, "only accepted messages are published");
    int k = g_next++; const unsigned char *b = (const unsigned char *)buf; size_t n = 0; while (TOPIC[k][n]) n++;
    CHECK(wsi == (struct lws *)(void *)g_wsi && is_complete && len == (uint32_t)k + 1 && pub->payload_len == len, "in the order accepted");
    CHECK(b[0] == g_byte[k] && b[k] == g_byte[k], "with its payload");
    CHECK(pub->topic_len == n && same(pub->topic, TOPIC[k], n), "and topic");
    CHECK((int)pub->qos == g_qos[k] && (pub->retain != 0) == g_ret[k], "and QoS and flag");
    g_sent++; return 0;
}
static void give(int k)
{
    unsigned char p[N]; for (int i = 0; i <= k; i++) p[i] = g_byte[k];
    g_offered = k + 1; int left = 0; for (int i = g_next; i < k; i++) if (g_in[i]) left++;
    long live = vh_live; int failed = vh_alloc_failed;
    int r = mcp_mqtt_transport_publish(&g_t, TOPIC[k], p, (size_t)k + 1, g_qos[k], g_ret[k]);
    for (int i = 0; i <= k; i++) p[i] = 0;
    g_in[k] = r == 0;
    if (vh_alloc_failed == failed) CHECK((r == 0) == ((uint32_t)left < g_c.base.max_queue_size), "accepted up to the limit");
    else CHECK(r != 0, "refused");
    CHECK(vh_live == live + (r == 0 ? 3 : 0), "a refused message leaves no trace");
}
static void start(uint32_t limit)
{
    g_t.type = MCP_TRANSPORT_TYPE_CLIENT; g_t.protocol_type = MCP_TRANSPORT_PROTOCOL_MQTT; g_t.transport_data = &g_c;
    CHECK(mqtt_transport_data_init(&g_c.base, &g_cfg, false) == 0 && g_c.base.max_queue_size == 1000, "ready");
    g_c.base.max_queue_size = limit; g_c.base.wsi = (struct lws *)(void *)g_wsi; g_next = g_offered = g_sent = 0;
    for (int i = 0; i < N; i++) g_in[i] = false;
}
static void run(uint32_t limit, unsigned order)
{
    long base = vh_live; start(limit);
    for (int i = 0, k = 0; i < ROUNDS; i++)
        if (order >> i & 1) { if (k < N) give(k++); } else mqtt_process_message_queue(&g_c.base);
    int acc = 0; for (int i = 0; i < N; i++) if (g_in[i]) acc++;
    CHECK(g_sent <= acc && g_c.base.message_queue_size == acc - g_sent, "none lost");
    mqtt_transport_data_cleanup(&g_c.base);
    CHECK(vh_live == base, "every message is released once");
}
static void inputs(void) { for (int i = 0; i < N; i++) { g_byte[i] = in_u8("byte"); g_qos[i] = in_u8("qos") & 1; g_ret[i] = in_bool("retain"); } }
static const unsigned ORDER[] = {0x0f, 0x55, 0x33, 0x17, 0xaa, 0x4b};
void h_script(void)
{
    inputs();
    for (uint32_t l = 1; l <= 3; l++) for (size_t i = 0; i < sizeof ORDER / sizeof *ORDER; i++) run(l, ORDER[i]);
    REACH("done");
}
void h_fail(void)
{
    inputs();
    for (int k = 0; k < 6; k++) {
        long base = vh_live; start(3); give(0); vh_fail_point(k); give(1); give(2); vh_fail_point(-1);
        for (int i = 0; i < 4; i++) mqtt_process_message_queue(&g_c.base);
        CHECK(g_sent == 1 + g_in[1] + g_in[2], "the accepted ones are published");
        mqtt_transport_data_cleanup(&g_c.base); CHECK(vh_live == base, "and all memory is released");
    }
    REACH("done");
}
