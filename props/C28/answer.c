// A request that is answered: the answer is queued for the one who asked.
//@file subst=small.json funcs=mqtt_handle_incoming_message,mqtt_deserialize_mcp_message,mqtt_serialize_mcp_message,mqtt_extract_client_id_from_topic,mqtt_construct_response_topic,mqtt_enqueue_message
//@file assume="local buffers of 40 instead of 256 bytes (the topics used are shorter)"
//@obl h_answer kind=bounded unwind=24 note="one request, answered or not, each allocation failing in turn"
#include "vh.h"
#include "vh_sync.h"
#include "src/transport/internal/mqtt_transport_internal.h"
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#include "src/transport/mcp_mqtt_common.c"
static mcp_mqtt_transport_data_t g_d; static mcp_mutex_t g_m, g_sm; static char g_user[1];
long long mcp_get_time_ms(void) { return 1; }
char *mcp_strdup(const char *s) { size_t n = 0; while (s[n]) n++; char *p = (char *)malloc(n + 1); if (p) for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
static bool same(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
int lws_mqtt_client_send_publish(struct lws *wsi, lws_mqtt_publish_param_t *pub, const void *buf, uint32_t len, int is_complete) { return 0; }
static int g_calls; static bool g_silent;
static char *answer(void *u, const void *d, size_t n, int *e) { CHECK(u == g_user && n == 2 && same((const char *)d, "rq", 2), "the request"); g_calls++; *e = 0; char *p = g_silent ? NULL : (char *)malloc(4); if (p) { p[0] = 'o'; p[1] = 'k'; p[2] = '!'; p[3] = 0; } return p; }
void h_answer(void)
{
    g_m.alive = g_sm.alive = 1; g_d.message_mutex = &g_m; g_d.stats_mutex = &g_sm;
    for (int k = -1; k < 9; k++) for (int s = 0; s < 2; s++) {
        long base = vh_live; g_d.max_queue_size = 1; g_d.message_queue_size = 0; g_d.message_queue_head = g_d.message_queue_tail = NULL;
        g_d.message_callback = answer; g_d.callback_user_data = g_user; g_calls = 0; g_silent = s; g_d.config.qos = 1; g_d.config.retain = true;
        vh_fail_point(k); CHECK(mqtt_handle_incoming_message(&g_d, "mcp/request/me", "rq", 2) == 0 && g_calls <= 1, "the request is handled once"); int failed = vh_alloc_failed; vh_fail_point(-1);
        mcp_mqtt_message_queue_entry_t *e = g_d.message_queue_head;
        if (!failed) CHECK(g_calls == 1 && (e != NULL) == !s, "and answered");
        if (e) CHECK(e == g_d.message_queue_tail && g_d.message_queue_size == 1 && e->payload_len == 3 && same((char *)e->payload, "ok!", 3) && same(e->topic, "mcp/response/me", 16) && e->qos == 1 && e->retain, "with the answer, to the one who asked");
        else CHECK(g_d.message_queue_size == 0 && !g_d.message_queue_tail, "or not at all");
        CHECK(vh_live == base + (e ? 3 : 0), "and nothing else stays");
        if (e) { free(e->topic); free(e->payload); free(e); }
    }
    REACH("done");
}
