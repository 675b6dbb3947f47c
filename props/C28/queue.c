// One message accepted, one message taken, from an arbitrary queue.  Head, tail
// and size are the ones found when the lock is taken (other threads change them
// in between); without the lock they read as garbage.
//@file funcs=mqtt_enqueue_message,mqtt_process_message_queue
//@obl h_enqueue kind=proof unwind=4 note="every queue, limit, topic length, payload length below 2^20, QoS and flag; failing copies"
//@obl h_too_long kind=proof unwind=4 note="every payload length"
//@obl h_process kind=proof unwind=4 note="every queue, topic length, payload length below 2^20, with and without a connection"
#include "vh.h"
static void on_lock(void *m); static void on_unlock(void *m);
#define VH_ON_LOCK(m) on_lock(m)
#define VH_ON_UNLOCK(m) on_unlock(m)
#include "vh_sync.h"
#include "src/transport/internal/mqtt_transport_internal.h"
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#ifndef REPLAY
static size_t len_of(const char *s); static void *cpy(void *d, const void *s, size_t n);
#undef strlen
#undef memcpy
#define strlen(s) len_of(s)
#define memcpy(d, s, n) cpy(d, s, n)
#endif
#include "src/transport/mcp_mqtt_common.c"
#undef strlen
#undef memcpy
typedef mcp_mqtt_message_queue_entry_t entry;
static mcp_mqtt_transport_data_t g_d; static mcp_mutex_t g_m, g_sm; static char g_wsi[1], g_garbage[1];
static entry g_first, g_last, *g_head; static char *g_topic, *g_copy; static unsigned char *g_pay; static size_t g_tlen, g_plen, g_w;
static int g_n, g_end_n, g_shape; static bool g_fixed; static entry *g_end_head, *g_end_tail; static int g_sections;
static lws_mqtt_publish_param_t g_pub; static int g_pubs; static const void *g_pub_buf; static uint32_t g_pub_len; static unsigned char g_pub_byte; static char g_pub_topic;
#ifndef REPLAY
static size_t len_of(const char *s) { if (s == g_topic || (s && s == g_copy)) return g_tlen; size_t n = 0; while (s[n]) n++; return n; }
static void *cpy(void *d, const void *s, size_t n)
{
    CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "a copy within both blocks");
    if (g_w < n) ((unsigned char *)d)[g_w] = ((const unsigned char *)s)[g_w];
    return d;
}
char *mcp_strdup(const char *s) { CHECK(s == g_topic, "a copy of the topic"); char *p = (char *)malloc(1); if (p) { *p = 'c'; g_copy = p; } return p; }
#else
char *mcp_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); if (p) { (memcpy)(p, s, n); p[0] = 'c'; g_copy = p; } return p; }
#endif
long long mcp_get_time_ms(void) { return 1; }
static void poison(void) { g_d.message_queue_head = g_d.message_queue_tail = (entry *)(void *)g_garbage; g_d.message_queue_size = in_i32("garbage"); }
static void on_lock(void *m)
{
    if (m != (void *)&g_m) return;
    if (!g_fixed) { g_shape = in_u8("shape") % 3; g_n = in_i32("size"); }
    ASSUME(g_n >= 0 && (uint32_t)g_n <= g_d.max_queue_size && (g_shape == 0 ? g_n == 0 : g_shape == 1 ? g_n == 1 : g_n >= 2));
    g_head->next = g_shape == 1 ? NULL : &g_last; g_last.next = NULL;
    g_d.message_queue_head = g_shape == 0 ? NULL : g_head;
    g_d.message_queue_tail = g_shape == 0 ? NULL : g_shape == 1 ? g_head : &g_last;
    g_d.message_queue_size = g_n; g_sections++;
}
static void on_unlock(void *m)
{
    if (m != (void *)&g_m) return;
    g_end_head = g_d.message_queue_head; g_end_tail = g_d.message_queue_tail; g_end_n = g_d.message_queue_size;
    CHECK((uint32_t)g_end_n <= g_d.max_queue_size, "the limit holds");
    CHECK((g_end_head == NULL) == (g_end_tail == NULL) && (g_end_n == 0) == (g_end_head == NULL), "head, tail and size agree");
    poison();
}
static void setup(void)
{
    g_m.alive = g_sm.alive = 1; g_d.message_mutex = &g_m; g_d.stats_mutex = &g_sm;
    g_d.max_queue_size = in_u32("max"); ASSUME(g_d.max_queue_size >= 1 && g_d.max_queue_size <= 0x7fffffff);
    g_head = &g_first; g_fixed = 0; g_sections = 0; g_pubs = 0;
    g_tlen = in_u32("tlen"); ASSUME(g_tlen >= 1 && g_tlen < ((size_t)1 << 17));
    g_plen = in_u32("plen"); ASSUME(g_plen >= 1 && g_plen < ((size_t)1 << 20)); g_w = in_u32("w"); ASSUME(g_w < g_plen);
    poison();
}
int lws_mqtt_client_send_publish(struct lws *wsi, lws_mqtt_publish_param_t *pub, const void *buf, uint32_t len, int is_complete)
{
    CHECK(wsi == (struct lws *)(void *)g_wsi && is_complete, "on the connection, in one piece");
    g_pub = *pub; g_pub_buf = buf; g_pub_len = len; g_pubs++; g_pub_byte = ((const unsigned char *)buf)[g_w]; g_pub_topic = pub->topic[0];
    return in_bool("refused") ? -1 : 0;
}
static void give(void)
{
    g_pay = (unsigned char *)malloc(g_plen); ASSUME(g_pay);
#ifdef REPLAY
    g_topic = (char *)malloc(g_tlen + 1); memset(g_topic, 't', g_tlen); g_topic[g_tlen] = 0; memset(g_pay, 0, g_plen);
#else
    g_topic = (char *)malloc(1); ASSUME(g_topic);
#endif
    g_copy = NULL;
}
void h_enqueue(void)
{
    setup(); give(); g_pay[g_w] = in_u8("byte");
    int qos = in_i32("qos"); bool retain = in_bool("retain"); long live = vh_live; vh_alloc_may_fail = 1;
    int r = mqtt_enqueue_message(&g_d, g_topic, g_pay, g_plen, qos, retain);
    CHECK(!vh_locks_held, "the lock is released");
    if (r == 0) {
        CHECK(g_tlen <= 65535, "a topic that can be sent");
        CHECK(vh_live == live + 3 && g_sections >= 1 && g_end_n == g_n + 1, "one more message");
        entry *e = g_end_tail;
        CHECK(e && e != &g_first && e != &g_last && e->next == NULL, "at the end of the queue");
        CHECK(g_end_head == (g_shape == 0 ? e : &g_first), "behind those already there");
        if (g_shape == 1) CHECK(g_first.next == e, "linked");
        if (g_shape == 2) CHECK(g_last.next == e && g_first.next == &g_last, "linked");
        CHECK(e->topic == g_copy && e->topic != g_topic && e->topic[0] == 'c', "its topic");
        CHECK(e->payload != g_pay && e->payload_len == g_plen && ((unsigned char *)e->payload)[g_w] == g_pay[g_w], "its payload");
        CHECK(e->qos == qos && e->retain == retain, "its QoS and flag");
        REACH("accepted");
    } else {
        CHECK(r == -1 && vh_live == live, "a refused message leaves no trace");
        CHECK(vh_alloc_failed || g_tlen > 65535 || (uint32_t)g_n >= g_d.max_queue_size, "refused for a reason");
        if (g_sections) CHECK(g_end_n == g_n && g_end_head == (g_shape ? &g_first : NULL) && g_end_tail == (g_shape == 0 ? NULL : g_shape == 1 ? &g_first : &g_last) && g_last.next == NULL, "the queue is unchanged");
        REACH("refused");
    }
}
void h_too_long(void)
{
    setup(); give(); size_t n = in_u64("n"); ASSUME(n > UINT32_MAX);
    long live = vh_live;
    CHECK(mqtt_enqueue_message(&g_d, g_topic, g_pay, n, 0, 0) == -1 && vh_live == live, "a payload that cannot be sent is refused");
    REACH("refused");
}
void h_process(void)
{
    setup(); give(); ASSUME(g_tlen <= 65535); g_pay[g_w] = in_u8("byte"); g_topic[0] = 'c';
    long base = vh_live - 2;
    entry *e = (entry *)malloc(sizeof *e); ASSUME(e);
    g_head = e; e->topic = g_topic; e->payload = g_pay; e->payload_len = g_plen; e->qos = in_u8("qos") & 3; e->retain = in_bool("retain"); e->timestamp = 0; e->retry_count = 0;
    int qos = e->qos; bool retain = e->retain; unsigned char byte = g_pay[g_w]; size_t tlen = g_tlen;
    g_fixed = 1; g_shape = in_u8("shape") % 3; g_n = in_i32("size");
    g_d.wsi = in_bool("connected") ? (struct lws *)(void *)g_wsi : NULL;
    mqtt_process_message_queue(&g_d);
    CHECK(!vh_locks_held, "the lock is released");
    if (g_shape && g_d.wsi) {
        CHECK(g_pubs == 1, "the first message is published once");
        CHECK(g_pub.topic_len == tlen && g_pub_topic == 'c', "with its topic");
        CHECK(g_pub.payload == g_pub_buf && g_pub.payload_len == g_plen && g_pub_len == g_plen && g_pub_byte == byte, "and payload");
        CHECK((int)g_pub.qos == qos && (g_pub.retain != 0) == retain, "with its QoS and flag");
        CHECK(g_end_head == (g_shape == 1 ? NULL : &g_last) && g_end_tail == g_end_head && g_end_n == g_n - 1, "the others stay in order");
        CHECK(vh_live == base, "and its memory is released");
        REACH("published");
    } else {
        CHECK(!g_pubs && vh_live == base + 3, "nothing published or released");
        if (g_sections) CHECK(g_end_head == (g_shape ? e : NULL) && g_end_n == g_n, "the queue is unchanged");
        REACH("kept");
    }
}
