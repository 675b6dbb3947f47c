// Replay from a store of every size and fill level, wherever its start lies
// (loop invariants in replay.json).
//@file funcs=sse_stream_context_replay_events loops=replay.json
//@file assume="the index by its contract (decided in map.c): it knows the position of the stored event with that id"
//@obl h_replay kind=proof unwind=2 loops=1 replace=send_sse_event:spec_send abstract=1 standin=h_script note="every capacity below 65536, start, fill level and last id; failing writes"
#include "vh_sync.h"
#include "internal/sthttp_transport_internal.h"
#include "mcp_log.h"
#define mcp_log_log(...) ((void)0)
size_t g_max, g_head, g_n, g_k, g_next, g_sends, g_idx; bool g_known, g_failed; sse_event_t *g_ev;
#include "src/transport/mcp_sthttp_utils.c"
sse_stream_context_t g_c; mcp_mutex_t g_m; char g_obj[1], g_id[2], g_dummy[1];
static char g_text[3];
int event_hash_map_get(event_hash_map_t *m, const char *id, size_t *p)
{ CHECK((char *)m == g_dummy && id == g_id, "the id asked for"); if (!g_known) return -1; *p = g_idx; return 0; }
int spec_send(struct lws *w, const char *id, const char *type, const char *data)
{
    size_t x = (g_head + g_next) % g_max;
    CHECK((char *)w == g_obj && g_next < g_n && !g_failed, "to this client, not after a failure");
    CHECK(id == g_ev[x].id && type == g_ev[x].event && data == g_ev[x].data, "the next missed event");
    g_next++;
    if (in_bool("fail")) { g_failed = true; return -1; }
    g_sends++; return 0;
}
void h_replay(void)
{
    vh_reset(); g_m.held = 0; g_m.alive = 1; vh_locks_held = 0; vh_lock_ops = 0;
    g_max = in_u16("max"); ASSUME(g_max >= 1); g_n = in_u16("n"); ASSUME(g_n <= g_max); g_head = in_u16("head"); ASSUME(g_head < g_max);
    g_ev = (sse_event_t *)malloc(g_max * sizeof *g_ev); ASSUME(g_ev);
#ifdef REPLAY
    for (size_t i = 0; i < g_max; i++) { g_ev[i].id = (char *)g_ev + 3 * i; g_ev[i].event = (char *)g_ev + 3 * i + 1; g_ev[i].data = (char *)g_ev + 3 * i + 2; }
#endif
    g_known = in_bool("known"); g_k = in_u16("k"); if (g_known) ASSUME(g_k < g_n);
    g_idx = (g_head + g_k) % g_max; g_next = g_known ? g_k + 1 : 0; g_sends = 0; g_failed = false;
    g_c.mutex = &g_m; g_c.stored_events = g_ev; g_c.max_stored_events = g_max; g_c.stored_event_count = g_n; g_c.event_head = g_head; g_c.event_hash = (event_hash_map_t *)(void *)g_dummy;
    size_t start = g_next;
    int r = sse_stream_context_replay_events(&g_c, (struct lws *)(void *)g_obj, g_known ? g_id : NULL);
    CHECK(r >= 0 && (size_t)r == g_sends, "the number of events replayed");
    CHECK(g_failed || g_next == g_n, "up to the last one");
    CHECK(g_sends <= g_n - start && g_c.stored_event_count == g_n && g_c.event_head == g_head, "the store is unchanged");
    CHECK(!g_m.held, "the lock is released");
    REACH("replayed");
}
